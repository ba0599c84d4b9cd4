// C08: The SysEx size limit is enforced and heals after an oversized message
#include "coll.h"
using namespace sim;

template<int BITS>
static void limits(Ctx& c)
{
    const uint8_t mask = BITS == 7 ? 0x7F : 0xFF;
    PacketLink    link;
    if (c.choose(3) == 2)
        link.draw_rates(c);
    const uint32_t p_limit = c.pick({ 80u, 300u }), p_mid = c.pick({ 0u, 0u, 5u, 30u }), p_reset = c.pick({ 0u, 0u, 20u }), p_other = c.pick({ 0u, 50u });
    const bool     big = c.choose(8) == 7;
    uint8_t        stream = BITS == 8 ? uint8_t(c.choose(256)) : 0, other = uint8_t(stream + 1);
    const uint8_t  group = uint8_t(c.choose(16));

    CollRig<BITS> rig(c);
    if (c.choose(4) == 3)
        rig.other.emplace(c.choose(1u << 16));
    auto          gen_limit = [&]() -> size_t {
        switch (c.weighted({ 8, 4, 2, big ? 4u : 1u }))
        {
        case 0: return 1 + c.choose(40);
        case 1: return c.pick({ 127u, 128u, 129u, 126u, 255u, 256u, 257u, 64u, 60u });
        case 2: return 0;
        default: return (c.choose(8) == 7 ? c.pick({ 32768u, 65536u }) : c.pick({ 1000u, 1024u, 2048u, 16384u, 16385u, 20000u, 5000u })) - 2 + c.choose(5);
        }
    };
    if (c.choose(4))
        rig.set_limit(gen_limit());
    uint64_t over = 0, fit = 0, exact = 0;
    if (c.choose(4) == 3)
        rig.limit_action = [&]() -> std::optional<size_t> { return c.choose(4) == 3 ? std::optional<size_t>(gen_limit()) : std::nullopt; };
    Ops ops(c, c.pick({ 8u, 20u, 50u }), 200);
    while (ops.next())
    {
        if (c.pm(p_limit))
        {
            rig.set_limit(gen_limit());
            c.fault("limit changed");
        }
        // sizes around the limit
        Msg            m;
        const size_t   lim = rig.model.limit;
        const uint32_t k   = c.choose(4);
        size_t         n;
        if (!lim || k == 3)
            n = gen_size(c, SizeProfile{ 12, 4, 3, big ? 1u : 0u });
        else if (k == 2)
            n = lim + 1 + c.choose(uint32_t(std::min<size_t>(3 * lim, 600)));
        else
        {
            const uint32_t d = c.choose(18);
            n                = lim + d >= 8 ? lim + d - 8 : d;
        }
        if (n > 70000)
            n = 70000;
        m.man  = gen_manufacturer(c);
        m.data = gen_content(c, uint32_t(n), mask);
        if (lim)
        {
            n > lim ? ++over : ++fit;
            if (n == lim)
                ++exact;
        }
        auto v = packetise<BITS>(c, m, group, stream, false);
        if (c.choose(6) == 0 && v.size() > 1)
        {
            v.resize(1 + c.choose(uint32_t(v.size() - 1))); // the end never arrives
            c.fault("message cut off");
        }
        else
            v = link.carry<BITS>(c, std::move(v));
        const size_t dense = v.size() > 60 ? v.size() / 30 : 1;
        for (size_t i = 0; i < v.size(); ++i)
        {
            if (i % dense == 0)
            {
                if (p_mid && c.pm(p_mid))
                {
                    rig.set_limit(gen_limit());
                    c.fault("limit changed inside a message");
                }
                if (p_reset && c.pm(p_reset))
                {
                    c.fault("reset");
                    rig.reset();
                }
                if (p_other && c.pm(p_other))
                {
                    // another stream's packets, or another message type
                    if (BITS == 8 && c.choose(2))
                    {
                        Frag f{ c.choose(2) ? Frag::cont : Frag::end, group, other, gen_content(c, c.choose(14), 0xFF) };
                        rig.feed(encode<BITS>(f));
                    }
                    else
                        rig.feed(gen_other_packet(c));
                }
            }
            rig.feed(v[i]);
            c.advance(256000);
        }
    }
    // healing
    rig.limit_action = {};
    const size_t lim = rig.model.limit;
    const auto   n0  = rig.delivered;
    for (size_t n : { lim ? std::min<size_t>(lim, 300) : size_t(20), lim ? std::min<size_t>(lim, 7) : size_t(7), size_t(0) })
        for (auto& p : packetise<BITS>(c, { 0x7D0000, Bytes(n, 0x55) }, group, stream, false))
            rig.feed(p);
    if (rig.delivered != n0 + 3)
        c.fail("healing", "%d of 3 intact messages within the limit reported at the end", int(rig.delivered - n0));
    c.probe("oversized message", over);
    c.probe("message within limit", fit);
    c.probe("message exactly at limit", exact);
    c.probe("oversized withheld", rig.withheld);
    if (over && fit)
        c.nontrivial();
}

static void run(Ctx& c)
{
    if (c.choose(2))
        limits<8>(c);
    else
        limits<7>(c);
}

const Scenario& sim::scenario()
{
    static const Scenario s{ "C08",
                             "collector with limits set and changed at seeded moments (also inside messages), messages sized around the limit and far beyond, cut off and fault injected; "
                             "non-trivial: messages beyond and within the limit were sent; distinct by hash of the complete event log",
                             run, 15000, false, "sysex7_collector, sysex8_collector, send_sysex7, send_sysex8", "link, application",
                             "a message in progress while the limit is changed that exceeds one of the limits in force meanwhile may be reported or not, but not wrongly" };
    return s;
}
