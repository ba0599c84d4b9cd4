// C14: The jitter reduction clock counts real time at 31250 Hz
#include "world.h"
#include <midi/jitter_reduction_timestamps.h>
#include <midi/utility_message.h>
using namespace sim;

// The clock's zero is a function local static: every run is a process of its own.
static void run(Ctx& c)
{
    constexpr int64_t tick = 32000, wrap = 65536 * tick;
    int64_t           t    = 1000 + int64_t(c.choose(1000000000));
    if (c.choose(4) == 3)
        t = 1700000000000000000ll + int64_t(c.choose(1000000000)); // today
    clk::set_ns(t);
    uint64_t           reads = 0, wraps = 0;
    const int64_t      t0 = t;
    midi::jr_timestamp_t prev = midi::jr_clock::now();
    int64_t            prev_t = t;
    c.ev("start", uint64_t(t0));
    if (prev.value != 0)
        c.fail("zero", "first use reads %u", prev.value);
    const uint32_t scale = c.choose(4);
    Ops            ops(c, 80, 400);
    while (ops.next())
    {
        int64_t dt;
        switch (c.weighted({ 6, 4, 3, 2, 1, 1, 1 }))
        {
        case 0: dt = c.choose(100000); break;                       // around a tick
        case 1: dt = int64_t(c.choose(70000)) * tick; break;        // whole ticks, beyond a wrap
        case 2: dt = int64_t(c.choose(20000)) * 100000 * (scale + 1); break;
        case 3: dt = wrap - tick + int64_t(c.choose(3)) * tick + c.choose(2); break;
        case 4: // machine asleep
            dt = int64_t(c.choose(1u << 30)) * (scale ? 1000000ll : 1000ll);
            c.fault("long pause");
            break;
        case 5: // clock stepped back, but not before first use
        {
            dt = -int64_t(c.choose(2000000000));
            if (t + dt < t0)
                dt = t0 - t;
            c.fault("clock stepped back");
            break;
        }
        default: dt = -((t - t0) % tick) + int64_t(c.choose(3)) - 1; // right at a tick boundary
            if (t + dt < t0)
                dt = 0;
            break;
        }
        t += dt;
        if (dt > 0)
            c.advance(uint64_t(dt));
        clk::set_ns(t);
        const auto     now  = midi::jr_clock::now();
        const int64_t  full = (t - t0) / tick;
        const uint16_t want = uint16_t(full & 0xFFFF);
        c.ev("read", uint64_t(t), now.value);
        c.check();
        ++reads;
        if (full > 65535)
            ++wraps;
        if (now.value != want)
            c.fail("value", "%lld ns after first use the clock reads %u instead of %u", (long long)(t - t0), now.value, want);
        const int64_t pfull = (prev_t - t0) / tick;
        if (full >= pfull && full - pfull < 65536)
        {
            const auto d = (now - prev).count();
            if (d != full - pfull)
                c.fail("difference", "timestamps %u and %u are %lld ticks apart, difference says %lld", prev.value, now.value, (long long)(full - pfull), (long long)d);
        }
        if ((now == prev) != (now.value == prev.value) || (now != prev) == (now == prev))
            c.fail("compare", "comparison of timestamps %u and %u", now.value, prev.value);
        c.state(uint64_t(now.value));
        // on the wire
        {
            const midi::jr_clock_message     a{ now };
            const midi::jr_timestamp_message b{ now };
            midi::jr_timestamp_message       d;
            d.set_timestamp(prev);
            d.set_timestamp(now);
            for (int k = 0; k < 3; ++k)
            {
                const midi::universal_packet wire = k == 0 ? midi::universal_packet(a) : k == 1 ? midi::universal_packet(b) : midi::universal_packet(d);
                const uint32_t               w    = (k == 0 ? 0x00100000u : 0x00200000u) | want;
                if ((wire.data[0] & 0xF0FFFFFFu) != w)
                    c.fail("message", "timestamp %u sent as %08x", want, wire.data[0]);
                if (midi::utility_message_view{ wire }.payload() != want)
                    c.fail("message", "timestamp %u received as %u", want, midi::utility_message_view{ wire }.payload());
            }
            if (const midi::jr_clock_message e; midi::universal_packet(e).data[0] != 0x00100000u || e.timestamp().value != 0)
                c.fail("message", "empty clock message is %08x", midi::universal_packet(e).data[0]);
            if (const midi::jr_timestamp_message e; midi::universal_packet(e).data[0] != 0x00200000u || e.timestamp().value != 0)
                c.fail("message", "empty timestamp message is %08x", midi::universal_packet(e).data[0]);
            if (a.timestamp() != now || b.timestamp() != now || d.timestamp() != now)
                c.fail("message", "timestamp %u not read back", want);
        }
        prev   = now;
        prev_t = t;
    }
    c.probe("clock reads", reads);
    c.probe("reads after a wrap", wraps);
    if (reads > 3)
        c.nontrivial();
}

const Scenario& sim::scenario()
{
    static const Scenario s{ "C14",
                             "process whose clock advances by seeded amounts between reads (ticks, wraps, long pauses, steps back); non-trivial: several reads; distinct by hash of the complete event log",
                             run, 25000, true, "jr_clock, jr_timestamp_t, jr_clock_message, jr_timestamp_message, utility_message_view", "system clock, link",
                             "the clock never shows a time before its first use" };
    return s;
}
