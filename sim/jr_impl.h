// Jitter reduction: a sender with its own clock, a link with varying delay, the real follower.
#pragma once
#include "world.h"
#include <midi/jitter_reduction_timestamps.h>

namespace sim {

class FollowerRig
{
  public:
    static constexpr int64_t tick = 32000; // ns
    using Follower                = midi::jr_clock_follower;

    struct Checks
    {
        bool order, timing;
    };
    FollowerRig(Ctx& ctx, Checks k) : c(ctx), m_k(k) {}

    //! the follower of another port, on which something else goes on meanwhile
    std::optional<Follower> other;
    void                    go_on(int64_t received)
    {
        if (!other)
            return;
        const uint64_t h = mix64(uint64_t(received) + clocks * 7 + messages);
        if (h % 3 == 0)
            other->process_clock(at(received - int64_t((h >> 8) % 50000000)), midi::jr_timestamp_t(uint16_t(h >> 40)));
        if (h % 3 == 1)
            other->schedule_message(at(received), midi::jr_timestamp_t(uint16_t(h >> 40)));
        if (h % 64 == 2)
            other->reset();
        if (h % 64 == 5)
            other->set_security_offset(Follower::duration((h >> 30) % 30000000));
    }

    //! sender time in ticks since the simulated sender started (not wrapped)
    void clock(int64_t received, int64_t ticks)
    {
        const auto off0 = offset(), jit0 = jitter();
        c.ev("clock", uint64_t(received), uint64_t(ticks));
        clk::set_ns(received);
        go_on(received);
        const midi::jr_clock_message msg{ midi::jr_timestamp_t(uint16_t(ticks)) };
        f.process_clock(at(received), midi::jr_timestamp_t(uint16_t(msg.data[0])));
        const int64_t transit = received - ticks * tick;
        m_min        = m_have_clock ? std::min(m_min, transit) : transit;
        m_max        = m_have_clock ? std::max(m_max, transit) : transit;
        m_have_clock = true;
        m_arrival    = received;
        last_clock   = ticks;
        ++clocks;
        if (offset() != off0)
            ++offset_raised;
        if (m_k.timing)
        {
            c.check();
            const auto spread = m_max - m_min;
            if (jitter() < spread)
                c.fail("jitter", "jitter() is %lld ns, clock transit times spread over %lld ns", (long long)jitter(), (long long)spread);
            if (!spread && jitter() != 0)
                c.fail("jitter", "jitter() is %lld ns on a link with constant delay", (long long)jitter());
            if (offset() < off0)
                c.fail("offset", "security offset shrank from %lld to %lld ns", (long long)off0, (long long)offset());
            if ((!m_user_low || jitter() > jit0) && offset() < jitter() * 12 / 10)
                c.fail("offset", "security offset %lld ns is less than 1.2 times the jitter %lld ns", (long long)offset(), (long long)jitter());
        }
        if (offset() >= jitter() * 12 / 10)
            m_user_low = false;
        c.state((uint64_t(jitter() / 1000) << 20) ^ uint64_t(offset() / 1000));
    }
    int64_t message(int64_t received, int64_t ticks)
    {
        const auto off0 = offset(), jit0 = jitter();
        clk::set_ns(received);
        go_on(received);
        const midi::jr_timestamp_message msg{ midi::jr_timestamp_t(uint16_t(ticks)) };
        const int64_t                    res = ns(f.schedule_message(at(received), midi::jr_timestamp_t(uint16_t(msg.data[0]))));
        c.ev("message", uint64_t(received), uint64_t(ticks), uint64_t(res));
        ++messages;
        c.check();
        const int64_t transit = received - ticks * tick;
        if (m_k.order)
        {
            if (m_prev && res < *m_prev)
                c.fail("order", "message scheduled at %lld ns, the one before it at %lld ns", (long long)res, (long long)*m_prev);
            if (m_have_clock && transit <= m_max && !m_user_low && res < received)
                c.fail("early", "message received at %lld ns is scheduled at %lld ns, although its transit time is within the range seen", (long long)received, (long long)res);
            if (!m_have_clock && res < received)
                c.fail("early", "message received at %lld ns before any clock is scheduled at %lld ns", (long long)received, (long long)res);
        }
        if (m_k.timing)
        {
            if (offset() != off0 || jitter() != jit0)
                c.fail("offset", "scheduling a message changed jitter or security offset");
            if (!m_have_clock)
            {
                if (res != received + off0)
                    c.fail("no-clock", "without a clock, message received at %lld ns is scheduled at %lld ns with offset %lld ns", (long long)received, (long long)res, (long long)off0);
            }
            else
            {
                int64_t lo = ticks * tick + m_min;
                if (m_prev_time)
                    lo = std::max(lo, *m_prev_time);
                const int64_t hi = std::max(lo, m_arrival);
                if (res < hi + off0)
                    c.fail("timing", "message stamped %lld ns, shortest transit %lld ns, offset %lld ns: scheduled at %lld ns, %lld ns too early", (long long)(ticks * tick),
                           (long long)m_min, (long long)off0, (long long)res, (long long)(hi + off0 - res));
                if (res > hi + off0)
                    c.fail("timing", "message stamped %lld ns, shortest transit %lld ns, offset %lld ns: scheduled at %lld ns, %lld ns too late", (long long)(ticks * tick),
                           (long long)m_min, (long long)off0, (long long)res, (long long)(res - hi - off0));
            }
        }
        if (m_have_clock && res - off0 > ticks * tick + m_min)
            ++held_back;
        m_prev      = res;
        m_prev_time = res - off0;
        return res;
    }
    void reset()
    {
        c.ev("reset");
        f.reset();
        forget();
        fresh();
    }
    void fresh()
    {
        if (m_k.timing && (jitter() != 0 || offset() != 2000000))
            c.fail("initial", "jitter %lld ns, security offset %lld ns in the initial state", (long long)jitter(), (long long)offset());
    }
    void set_offset(int64_t o)
    {
        c.ev("offset", uint64_t(o));
        const bool lower = o < offset();
        f.set_security_offset(Follower::duration(o));
        if (m_k.timing && offset() != o)
            c.fail("offset", "security_offset() is %lld after set_security_offset(%lld)", (long long)offset(), (long long)o);
        if (lower)
        {
            m_prev.reset();
            m_user_low = o < jitter() * 12 / 10;
        }
    }
    int64_t offset() const { return dur(f.security_offset()); }
    int64_t jitter() const { return dur(f.jitter()); }
    bool    have_clock() const { return m_have_clock; }

    Follower f;
    int64_t  last_clock = 0;
    uint64_t clocks = 0, messages = 0, offset_raised = 0, held_back = 0;

  private:
    static Follower::time_point at(int64_t t) { return Follower::time_point(std::chrono::duration_cast<Follower::duration>(std::chrono::nanoseconds(t))); }
    static int64_t              ns(Follower::time_point t) { return dur(t.time_since_epoch()); }
    static int64_t              dur(Follower::duration d) { return std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(); }
    void                        forget()
    {
        m_have_clock = m_user_low = false;
        m_prev.reset();
        m_prev_time.reset();
    }
    Ctx&                   c;
    Checks                 m_k;
    bool                   m_have_clock = false, m_user_low = false;
    int64_t                m_min = 0, m_max = 0, m_arrival = 0;
    std::optional<int64_t> m_prev, m_prev_time;
};

//! the delay of a link, in ns
struct DelayModel
{
    int64_t  base, amp;
    uint32_t kind;
    int64_t  slope = 0;
    explicit DelayModel(Ctx& c)
    {
        base = c.pick({ 0u, 1u, 3u, 20u }) * 1000000ll + c.choose(1000000);
        amp  = c.pick({ 0u, 100u, 1000u, 6000u, 50000u }) * 1000ll;
        kind = c.choose(5);
    }
    int64_t next(Ctx& c)
    {
        switch (kind)
        {
        case 0: return base + (amp ? int64_t(c.choose(uint32_t(amp))) : 0); // uniform
        case 1: return base;                                               // constant
        case 2: return base + (c.pm(80) ? int64_t(c.choose(uint32_t(amp * 8 + 1))) : 0); // spikes
        case 3: // wandering
            slope += int64_t(c.choose(uint32_t(amp / 4 + 1))) - amp / 8;
            if (slope < 0)
                slope = 0;
            return base + slope;
        default: // two levels
            return base + (c.choose(4) ? 0 : amp);
        }
    }
};

inline void jitter_world(Ctx& c, FollowerRig::Checks checks)
{
    int64_t t0 = 1 + int64_t(c.choose(1000000)) * 1000;
    if (c.choose(4) == 3)
        t0 += 1700000000000000000ll + int64_t(c.choose(1000)); // today
    const bool patient = c.choose(12) == 11; // stalls and steps of seconds
    clk::set_ns(t0);
    FollowerRig rig(c, checks);
    rig.fresh();
    if (c.choose(4) == 3)
        rig.other.emplace();

    DelayModel     delay(c);
    const int64_t  ppm       = c.choose(2) ? int64_t(c.choose(4001)) - 2000 : 0; // sender's clock against the receiver's
    int64_t        ticks     = c.choose(3) ? c.choose(70000) : 65536 * int64_t(c.choose(5)) + 65500 + c.choose(60);
    const int64_t  start     = ticks;
    const int64_t  epoch     = t0 + 1 + int64_t(c.choose(50000000));
    int64_t        step      = 0; // steps of the receiver's clock
    int64_t        last_recv = epoch;
    const uint32_t period    = c.pick({ 100u, 600u, 3000u, 15000u, 40000u }); // ticks between clocks
    const uint32_t p_loss = c.pick({ 0u, 0u, 100u, 400u }), p_dup = c.pick({ 0u, 0u, 80u }), p_mloss = c.pick({ 0u, 100u });
    const uint32_t p_user = c.pick({ 0u, 0u, 30u }), p_reset = c.pick({ 0u, 0u, 15u }), p_step = c.pick({ 0u, 0u, 15u }), p_stall = c.pick({ 0u, 15u });
    const uint32_t density = c.pick({ 1u, 4u, 12u }); // messages per clock period
    int64_t        next_clock = ticks + c.choose(period), stall = 0;
    if (c.choose(3) == 0)
        next_clock = ticks;

    auto arrive = [&]() -> int64_t {
        if (p_stall && c.pm(p_stall))
        {
            stall = last_recv + int64_t(c.choose(patient ? 9000 : 200)) * 1000000;
            c.fault("receiver stalled");
        }
        if (p_step && c.pm(p_step))
        {
            step += int64_t(c.choose(patient ? 9000 : 500)) * 1000000;
            c.fault("receiver clock stepped forward");
        }
        const int64_t elapsed = (ticks - start) * FollowerRig::tick;
        int64_t       r       = epoch + step + elapsed + elapsed / 1000000 * ppm + delay.next(c);
        r                     = std::max({ r, last_recv, stall });
        c.set_now(uint64_t(r));
        return last_recv = r;
    };

    const bool long_run = c.choose(2000) == 1999; // hours of simulated time
    Ops        ops(c, long_run ? 10000u : c.pick({ 15u, 60u, 150u }), long_run ? 15000 : 500);
    while (ops.next())
    {
        if (p_user && c.pm(p_user))
        {
            if (c.choose(3))
                rig.set_offset(rig.offset() + int64_t(c.choose(20000)) * (patient ? 500000 : 1000));
            else
            {
                rig.set_offset(int64_t(c.choose(uint32_t(std::min<int64_t>(rig.offset() + 1, 0x7FFFFFFF)))));
                c.fault("security offset lowered");
            }
        }
        if (p_reset && c.pm(p_reset))
        {
            rig.reset();
            c.fault("reset");
        }
        // next thing the sender does; its stamps stay within one wrap of the last clock the follower saw
        int64_t        dt    = int64_t(c.choose(3)) ? c.choose(2 * period / density + 2) : 0;
        const bool     limit = rig.have_clock();
        int64_t        at    = ticks + dt;
        bool           clock = at >= next_clock, forced = false;
        if (clock)
            at = std::max(ticks, next_clock);
        if (limit && at - rig.last_clock > 65535)
        {
            at    = rig.last_clock + 65535;
            clock = forced = true;
            c.probe("longest clock gap");
        }
        ticks = at;
        if (clock)
        {
            next_clock = ticks + period / 2 + c.choose(period);
            if (!forced && p_loss && c.pm(p_loss))
            {
                c.fault("clock message lost");
                // the one after next must still be within the wrap
                continue;
            }
            rig.clock(arrive(), ticks);
            if (p_dup && c.pm(p_dup))
            {
                c.fault("clock message duplicated");
                rig.clock(arrive(), ticks);
            }
        }
        else
        {
            if (p_mloss && c.pm(p_mloss))
            {
                c.fault("message lost");
                continue;
            }
            rig.message(arrive(), ticks);
        }
    }
    c.probe("clock messages", rig.clocks);
    c.probe("messages scheduled", rig.messages);
    c.probe("security offset raised", rig.offset_raised);
    c.probe("messages held back for order", rig.held_back);
    if (rig.clocks > 2 && rig.messages > 2)
        c.nontrivial();
}

} // namespace sim
