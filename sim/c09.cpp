// C09: A throwing or resetting application callback never corrupts the stream
#include "coll.h"
using namespace sim;

namespace {
struct App // the application behind the callbacks: misbehaves at seeded invocations
{
    Ctx&     c;
    uint32_t p_throw, p_reset, p_both;
    uint64_t acts = 0;
    explicit App(Ctx& ctx) : c(ctx)
    {
        p_throw = c.pick({ 50u, 200u, 600u, 0u });
        p_reset = c.pick({ 0u, 50u, 200u });
        p_both  = c.pick({ 0u, 0u, 50u });
    }
    int operator()()
    {
        const uint32_t k = c.weighted({ 1000 - p_throw - p_reset - p_both, p_throw, p_reset, p_both });
        if (k)
            ++acts;
        return int(k);
    }
};

void parser(Ctx& c)
{
    Talker t;
    t.sizes.boundary = 10;
    t.sizes.large    = c.choose(20) == 19 ? 1 : 0;
    t.w_sysex        = c.pick({ 6u, 14u });
    t.rt_in_message  = c.pick({ 0u, 50u, 200u });
    SerialLine line;
    if (c.choose(3) == 2)
        line.draw_rates(c);
    const auto mode = c.choose(2) ? ParserRig::callback : ParserRig::packets;
    App        app(c);
    ParserRig  rig(c, mode, uint8_t(c.choose(16)), true, { true, true });
    if (c.choose(4) == 3)
        rig.other.emplace(c.choose(1u << 16), c.choose(2));
    uint64_t   budget = 3000; // misbehaving invocations drawn per run
    rig.action        = [&] {
        if (!budget)
            return 0;
        --budget;
        return app();
    };
    Ops ops(c, c.pick({ 10u, 25u, 60u }), 250);
    while (ops.next())
    {
        for (uint8_t b : line.carry(c, t.next(c)))
            rig.feed(b);
        c.advance(320000);
    }
    // healing
    rig.action = {};
    for (uint8_t b : { 0xF0, 0x7D, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0xF7, 0x91, 0x40, 0x7F, 0x41, 0x7F, 0xF6 })
        rig.feed(b);
    c.probe("parser callbacks that misbehaved", app.acts);
    if (app.acts)
        c.nontrivial();
}

template<int BITS>
void collector(Ctx& c)
{
    SizeProfile sizes;
    PacketLink  link;
    if (c.choose(3) == 2)
        link.draw_rates(c);
    App           app(c);
    CollRig<BITS> rig(c);
    rig.action = std::ref(app);
    if (c.choose(4) == 3)
        rig.other.emplace(c.choose(1u << 16));
    if (c.choose(4) == 3)
        rig.set_limit(1 + c.choose(200));
    const uint8_t group = uint8_t(c.choose(16));
    const uint8_t ids[] = { uint8_t(c.choose(256)), uint8_t(c.choose(256)) };
    Ops           ops(c, c.pick({ 10u, 30u, 60u }), 250);
    while (ops.next())
    {
        if (c.choose(10) == 9)
            rig.feed(gen_frag<BITS>(c, group, ids[c.choose(2)]));
        auto v = packetise<BITS>(c, gen_msg(c, BITS == 7 ? 0x7F : 0xFF, sizes), group, ids[c.choose(2)], false);
        for (auto& p : link.carry<BITS>(c, std::move(v)))
        {
            rig.feed(p);
            c.advance(256000);
        }
    }
    rig.action = {};
    rig.set_limit(0);
    const auto n = rig.delivered;
    for (auto& p : packetise<BITS>(c, { 0x7D0000, Bytes(40, 9) }, group, ids[0], false))
        rig.feed(p);
    if (rig.delivered != n + 1)
        c.fail("healing", "intact message after the last exception not reported");
    c.probe("collector callbacks that misbehaved", app.acts);
    if (app.acts)
        c.nontrivial();
}

void run(Ctx& c)
{
    switch (c.choose(4))
    {
    case 2: collector<7>(c); break;
    case 3: collector<8>(c); break;
    default: parser(c);
    }
}
} // namespace

const Scenario& sim::scenario()
{
    static const Scenario s{ "C09",
                             "parser (both modes) and collectors on simulated links with faults, application callbacks that throw, reset the object or both at seeded invocations; "
                             "non-trivial: at least one callback misbehaved; distinct by hash of the complete event log",
                             run, 60000, false, "midi1_byte_stream_parser, sysex7_collector, sysex8_collector", "transmitter, links, application callbacks",
                             "bytes are fed one per call where callbacks may throw" };
    return s;
}
