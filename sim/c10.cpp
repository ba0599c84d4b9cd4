// C10: Failed allocations lose nothing and corrupt nothing
#include "coll.h"
#include <midi/capability_inquiry.h>
#include <midi/universal_sysex.h>
using namespace sim;

namespace {
//! memory pressure: decides which of the next allocations fail
struct Pressure
{
    Ctx&     c;
    uint32_t rate, deep;
    explicit Pressure(Ctx& ctx) : c(ctx)
    {
        rate = c.pick({ 30u, 200u, 700u });
        deep = c.pick({ 1u, 3u, 8u });
    }
    void maybe_arm()
    {
        if (!mem::armed() && c.pm(rate))
            mem::fail_in(1 + c.choose(deep), 1 + c.choose(3));
    }
};

void finish(Ctx& c)
{
    mem::fail_in(0);
    c.check();
    if (auto* e = mem::error())
        c.fail("memory", "%s", e);
    if (mem::outstanding())
        c.fail("leak", "%llu blocks (%llu bytes) outstanding after all objects are gone", (unsigned long long)mem::outstanding(),
               (unsigned long long)mem::outstanding_bytes());
}

void parser(Ctx& c)
{
    uint64_t failures;
    {
        Talker t;
        t.sizes.large   = c.choose(3) == 0 ? 6 : 1;
        t.w_sysex       = c.pick({ 10u, 20u });
        t.rt_in_message = c.pick({ 0u, 50u });
        SerialLine line;
        if (c.choose(3) == 2)
            line.draw_rates(c);
        ParserRig rig(c, ParserRig::callback, uint8_t(c.choose(16)), true, { true, true });
        Pressure  pr(c);
        uint32_t  big = 0;
        Ops       ops(c, c.pick({ 8u, 20u }), 80);
        while (ops.next())
        {
            if (big >= 6)
                t.sizes.large = 0;
            pr.maybe_arm();
            const auto b = line.carry(c, t.next(c));
            if (b.size() > 1000)
                ++big;
            size_t i = 0;
            for (uint8_t x : b)
            {
                if ((++i & 0xFF) == 0)
                    pr.maybe_arm();
                rig.feed(x);
            }
            if (c.choose(12) == 11)
                rig.reset();
            c.advance(320000 * b.size());
        }
        mem::fail_in(0);
        const auto n = rig.delivered_sysex;
        for (uint8_t b : { 0xF0, 0x7D, 1, 2, 3, 0xF7, 0x91, 0x40, 0x7F, 0x41, 0x7F })
            rig.feed(b);
        if (rig.delivered_sysex != n + 1)
            c.fail("healing", "intact SysEx after the failures not delivered");
        failures = rig.alloc_failures;
    }
    finish(c);
    c.probe("parser allocations failed", failures);
    if (failures)
        c.nontrivial();
}

template<int BITS>
void collector(Ctx& c)
{
    uint64_t failures;
    {
        SizeProfile sizes;
        sizes.large = c.choose(3) == 0 ? 3 : 0;
        PacketLink link;
        if (c.choose(3) == 2)
            link.draw_rates(c);
        CollRig<BITS> rig(c);
        rig.retry_allocation = c.choose(3) != 2;
        Pressure      pr(c);
        const uint8_t group = uint8_t(c.choose(16));
        const uint8_t ids[] = { uint8_t(c.choose(256)), uint8_t(c.choose(256)) };
        const uint32_t p_limit = c.pick({ 0u, 0u, 150u });
        uint32_t       big     = 0;
        Ops            ops(c, c.pick({ 8u, 25u }), 100);
        while (ops.next())
        {
            if (big >= 8)
                sizes.large = 0;
            if (p_limit && c.pm(p_limit))
            {
                pr.maybe_arm();
                rig.set_limit(c.pick({ 0u, 17u, 128u, 300u, 5000u, 20000u }));
            }
            const Msg m = gen_msg(c, BITS == 7 ? 0x7F : 0xFF, sizes);
            if (m.data.size() > 500)
                ++big;
            mem::fail_in(0);
            auto   v = link.carry<BITS>(c, packetise<BITS>(c, m, group, ids[c.choose(2)], false));
            size_t i = 0;
            for (auto& p : v)
            {
                if (v.size() < 40 || (i++ % 16) == 0)
                    pr.maybe_arm();
                rig.feed(p);
                c.advance(256000);
            }
            if (c.choose(12) == 11)
                rig.reset();
        }
        mem::fail_in(0);
        rig.retry_allocation = true;
        rig.set_limit(0);
        const auto n = rig.delivered;
        for (auto& p : packetise<BITS>(c, { 0x7D0000, Bytes(300, 9) }, group, ids[0], false))
            rig.feed(p);
        if (rig.delivered != n + 1)
            c.fail("healing", "intact message after the last failure not reported");
        failures = rig.alloc_failures;
        c.probe("packets given up", rig.dropped_on_alloc);
    }
    finish(c);
    c.probe("collector allocations failed", failures);
    if (failures)
        c.nontrivial();
}

//! builds something under memory pressure until it works; reports every failed attempt
template<typename F>
uint64_t persist(Ctx& c, Pressure& pr, F&& f)
{
    uint64_t n = 0;
    for (int attempt = 0;; ++attempt)
    {
        if (attempt < 4)
            pr.maybe_arm();
        else
            mem::fail_in(0);
        const auto before = mem::counters().failed;
        try
        {
            mem::Lib lib;
            f();
            if (mem::counters().failed != before)
            {
                mem::App app;
                c.fail("swallowed", "an allocation failed but nothing was reported");
            }
            return n;
        }
        catch (const std::bad_alloc&)
        {
            ++n;
            c.fault("allocation failure");
        }
    }
}

template<typename S>
void same(Ctx& c, const char* what, const S& s, const Msg& m)
{
    c.check();
    if (!(to_msg(s) == m))
        c.fail("wrong", "%s yields %s instead of %s", what, str(to_msg(s)).c_str(), str(m).c_str());
}

//! objects made, copied, assigned, grown, packetised and answered under memory pressure
template<int BITS>
void builder(Ctx& c)
{
    using Sysex = typename CollTraits<BITS>::sysex;
    uint64_t failures = 0;
    {
        Pressure pr(c);
        struct Obj
        {
            std::optional<Sysex> s;
            Msg                  m;
        };
        std::vector<Obj> pool(4);
        SizeProfile      sizes;
        sizes.large = c.choose(4) == 0 ? 2 : 0;
        Ops ops(c, c.pick({ 8u, 25u }), 100);
        while (ops.next())
        {
            Obj&           o = pool[c.choose(4)];
            Obj&           q = pool[c.choose(4)];
            const uint32_t k = c.choose(BITS == 7 ? 9 : 6);
            c.ev("build", k);
            switch (k)
            {
            case 0: // from buffer
            {
                const Msg m = gen_msg(c, BITS == 7 ? 0x7F : 0xFF, sizes);
                failures += persist(c, pr, [&] { Sysex t = make_sysex<Sysex>(m); o.s = std::move(t); });
                o.m = m;
                break;
            }
            case 1: // copy
                if (q.s)
                {
                    std::optional<Sysex> t;
                    failures += persist(c, pr, [&] { t.emplace(*q.s); });
                    same(c, "copy", *t, q.m);
                    same(c, "copied from", *q.s, q.m);
                    {
                        mem::Lib lib;
                        t.reset();
                    }
                }
                break;
            case 2: // assign
                if (q.s && o.s && &q != &o)
                {
                    failures += persist(c, pr, [&] { *o.s = *q.s; });
                    o.m = q.m;
                    same(c, "assigned from", *q.s, q.m);
                }
                break;
            case 3: // move
                if (q.s && o.s && &q != &o)
                {
                    {
                        mem::Lib lib;
                        *o.s = std::move(*q.s);
                        q.s.reset();
                    }
                    o.m = q.m;
                }
                break;
            case 4: // clear
                if (o.s)
                {
                    pr.maybe_arm();
                    mem::Lib lib;
                    o.s->clear();
                    o.m = {};
                }
                break;
            case 5: // packetise
                if (o.s && o.m.man)
                {
                    std::vector<Packet> listed, sent;
                    failures += persist(c, pr, [&] {
                        if constexpr (BITS == 7)
                        {
                            auto     v = midi::as_sysex7_packets(*o.s, 3);
                            mem::App a;
                            listed.assign(v.begin(), v.end());
                        }
                        else
                        {
                            auto     v = midi::as_sysex8_packets(*o.s, 7, 3);
                            mem::App a;
                            listed.assign(v.begin(), v.end());
                        }
                    });
                    Bytes got;
                    for (auto& p : listed)
                        if (auto f = decode<BITS>(p))
                            got.insert(got.end(), f->payload.begin(), f->payload.end());
                    const auto w = meaning<BITS>(got);
                    c.check();
                    if (!(w.msg == o.m))
                        c.fail("wrong", "packetised as %s, message is %s", str(w.msg).c_str(), str(o.m).c_str());
                }
                break;
            default:
                if constexpr (BITS == 7)
                {
                    if (k == 6) // grow
                    {
                        if (!o.s)
                            break;
                        const Bytes d = gen_content(c, 1 + c.choose(300), 0x7F);
                        failures += persist(c, pr, [&] { o.s->add_data(d.data(), d.size()); });
                        o.m.data.insert(o.m.data.end(), d.begin(), d.end());
                    }
                    else if (k == 7) // universal SysEx and MIDI-CI messages
                    {
                        const Bytes d = gen_content(c, 1 + c.choose(500), 0x7F);
                        midi::sysex7 ref = midi::ci::make_profile_specific_data_message(0x1234567, 0x7654321, { 1, 2, 3, 4, 5 }, d, 2);
                        failures += persist(c, pr, [&] {
                            Sysex t = midi::ci::make_profile_specific_data_message(0x1234567, 0x7654321, { 1, 2, 3, 4, 5 }, d, 2);
                            o.s     = std::move(t);
                        });
                        o.m = to_msg(ref);
                    }
                    else
                    {
                        midi::device_identity id{ 0x123456, 7, 8, 9 };
                        auto                  ref = midi::ci::make_discovery_inquiry(0x1234567, id, 2, 512, 5);
                        failures += persist(c, pr, [&] {
                            Sysex t = midi::ci::make_discovery_inquiry(0x1234567, id, 2, 512, 5);
                            o.s     = std::move(t);
                        });
                        o.m = to_msg(ref);
                    }
                }
            }
            for (auto& x : pool)
                if (x.s)
                    same(c, "object", *x.s, x.m);
            c.advance(1000);
        }
        mem::fail_in(0);
        mem::Lib lib;
        for (auto& x : pool)
            x.s.reset();
    }
    finish(c);
    c.probe("builder allocations failed", failures);
    if (failures)
        c.nontrivial();
}

void run(Ctx& c)
{
    switch (c.choose(6))
    {
    case 0: parser(c); break;
    case 1: collector<7>(c); break;
    case 2: collector<8>(c); break;
    case 3: builder<7>(c); break;
    case 4: builder<8>(c); break;
    default: parser(c);
    }
}
} // namespace

const Scenario& sim::scenario()
{
    static const Scenario s{ "C10",
                             "parser, collectors (retrying or giving up the packet) and message building with seeded allocation failures, some on faulty links; "
                             "non-trivial: at least one allocation of the library failed; distinct by hash of the complete event log",
                             run, 12000, false, "midi1_byte_stream_parser, sysex7_collector, sysex8_collector, sysex7, sysex8, as_sysexN_packets, some MIDI-CI factories",
                             "memory source (every allocation of the library), transmitter, links, application", "parser: the byte whose feed failed is fed again" };
    return s;
}
