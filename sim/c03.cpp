// C03: SysEx in a byte stream is delivered whole, once, or not at all
#include "world.h"
using namespace sim;

static void run(Ctx& c)
{
    Talker t;
    t.sizes.large      = c.choose(6) == 5 ? 2 : 0;
    t.sizes.giant      = c.choose(1000) == 999 ? 4 : 0;
    t.w_past           = c.choose(150) == 149 ? 2 : 0;
    t.sizes.boundary   = c.pick({ 4u, 12u });
    t.w_sysex          = c.pick({ 10u, 25u });
    t.w_partial        = c.pick({ 2u, 6u, 0u });
    t.w_garbage        = c.pick({ 2u, 0u });
    t.rt_in_message    = c.pick({ 0u, 30u, 150u });
    SerialLine line;
    if (c.choose(3) == 2)
        line.draw_rates(c);
    const uint32_t p_reset = c.pick({ 0u, 0u, 40u }), p_group = c.pick({ 0u, 0u, 30u }), p_enable = c.pick({ 0u, 0u, 60u });
    const uint32_t p_block = c.pick({ 0u, 300u, 1000u });
    const uint8_t  group   = uint8_t(c.choose(16));

    // the same cable feeds a receiver with SysEx callback, and one without whose packets go to a collector
    ParserRig cb(c, ParserRig::callback, group, true, { false, true });
    ParserRig pk(c, ParserRig::packets, group, true, { false, true });

    if (c.choose(4) == 3)
    {
        cb.other.emplace(c.choose(1u << 16), c.choose(2));
        pk.other.emplace(c.choose(1u << 16), c.choose(2));
    }
    std::vector<Msg>       by_callback, by_packets;
    midi::sysex7_collector coll([&](const midi::sysex7& s) {
        mem::App a;
        by_packets.push_back(to_msg(s));
    });
    cb.sysex_hook  = [&](const Msg& m) { by_callback.push_back(m); };
    pk.packet_hook = [&](const Packet& p) {
        mem::Lib lib;
        coll.feed(p);
    };
    bool toggled = false, was_reset = false;

    Ops ops(c, c.pick({ 6u, 15u, 40u }), 200);
    while (ops.next())
    {
        const Bytes b = line.carry(c, t.next(c));
        // places where control calls may fall
        const size_t step = b.size() > 64 ? b.size() / 16 + 1 : 1;
        for (size_t i = 0; i < b.size();)
        {
            if (p_reset && c.pm(p_reset))
            {
                c.fault("reset");
                was_reset = true;
                cb.reset();
                pk.reset();
                mem::Lib lib;
                coll.reset();
            }
            if (p_group && c.pm(p_group))
            {
                const auto g = uint8_t(c.choose(16));
                cb.set_group(g);
                pk.set_group(g);
            }
            if (p_enable && c.pm(p_enable))
            {
                const bool e = !cb.model.enabled;
                toggled      = true;
                c.fault("callbacks toggled");
                cb.enable(e);
                pk.enable(e);
            }
            size_t n = std::min(b.size() - i, step);
            if (p_block && c.pm(p_block))
            {
                n = std::min<size_t>(b.size() - i, 1 + c.choose(uint32_t(std::min<size_t>(b.size() - i, std::max<size_t>(5000, b.size() / 8)))));
                cb.feed_block(b.data() + i, n, int(c.choose(2)));
                pk.feed_block(b.data() + i, n, int(c.choose(2)));
            }
            else
                for (size_t k = 0; k < n; ++k)
                {
                    cb.feed(b[i + k]);
                    pk.feed(b[i + k]);
                }
            i += n;
            c.advance(320000 * n);
        }
        // both ways of delivery carry the same messages (incomplete manufacturer IDs are only meaningful as packets)
        if (!toggled)
        {
            size_t j = 0;
            c.check();
            for (auto& m : by_callback)
            {
                while (j < by_packets.size() && !(by_packets[j] == m))
                    ++j;
                if (j >= by_packets.size())
                    c.fail("modes-differ", "SysEx %s delivered by callback but not as packets", str(m).c_str());
                ++j;
            }
        }
        else if (cb.model.enabled == false && c.choose(2))
        {
            cb.enable(true);
            pk.enable(true);
        }
        by_callback.clear();
        by_packets.clear();
    }
    // healing
    cb.enable(true);
    pk.enable(true);
    by_packets.clear();
    for (uint8_t x : { 0xF0, 0x7D, 1, 2, 3, 4, 5, 6, 7, 8, 0xF7 })
    {
        cb.feed(x);
        pk.feed(x);
    }
    if (by_packets.size() != 1 || !(by_packets[0] == Msg{ 0x7D0000, { 1, 2, 3, 4, 5, 6, 7, 8 } }))
        c.fail("healing", "%zu messages collected after the last fault", by_packets.size());
    c.probe("sysex cancelled", cb.cancelled);
    if (cb.delivered_sysex > 1)
        c.nontrivial();
    (void)was_reset;
}

const Scenario& sim::scenario()
{
    static const Scenario s{ "C03",
                             "simulated MIDI cable with SysEx of boundary biased lengths, cut off and malformed ones, line faults, resets, callback toggles and arbitrary read sizes, "
                             "feeding a SysEx-callback receiver and a packet receiver with collector; non-trivial: at least one SysEx besides the closing one was delivered; "
                             "distinct by hash of the complete event log",
                             run, 40000, false, "midi1_byte_stream_parser in both modes, sysex7_collector", "transmitter, serial line, application callbacks",
                             "toggling callbacks inside a SysEx in packet mode is outside the property; a null three byte manufacturer ID may or may not be delivered" };
    return s;
}
