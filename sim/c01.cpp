// C01: MIDI 1 byte stream parsing is right for every byte history
#include "world.h"
using namespace sim;

static void run(Ctx& c)
{
    const bool faulty = c.choose(4) != 0;
    Talker     t;
    t.sizes.large   = c.choose(12) == 11 ? 1 : 0;
    t.sizes.giant   = c.choose(2000) == 1999 ? 2 : 0;
    t.w_past        = c.choose(150) == 149 ? 2 : 0;
    t.rt_in_message = c.pick({ 0u, 30u, 150u, 400u });
    t.w_sysex       = c.pick({ 2u, 0u, 6u });
    t.w_running     = c.pick({ 5u, 0u, 12u });
    t.w_common      = c.pick({ 3u, 0u, 8u });
    SerialLine line;
    if (faulty)
        line.draw_rates(c);
    const uint32_t p_reset = c.pick({ 0u, 20u, 60u }), p_group = c.pick({ 0u, 20u, 60u }), p_enable = c.pick({ 0u, 0u, 30u, 100u });
    const uint32_t p_block = c.pick({ 0u, 300u, 1000u });

    ParserRig rig(c, c.choose(2) ? ParserRig::callback : ParserRig::packets, uint8_t(c.choose(16)), c.choose(8) != 7, { true, false });
    if (c.choose(4) == 3)
        rig.other.emplace(c.choose(1u << 16), c.choose(2));
    // the application may change the parser from inside its callback, also in the middle of a block
    if (c.choose(4) == 3)
    {
        const uint32_t salt = c.choose(1u << 16), every = c.pick({ 3u, 8u, 40u }), kinds = 1 + c.choose(7);
        rig.control = [=](uint64_t n) {
            const uint64_t     h = mix64((uint64_t(salt) << 32) + n);
            ParserRig::Control k;
            if (h % every)
                return k;
            switch ((h >> 8) % 3)
            {
            case 0: k.toggle = kinds & 1; break;
            case 1: k.group = kinds & 2 ? int((h >> 16) & 15) : -1; break;
            default: k.reset = (kinds >> 2) & 1;
            }
            return k;
        };
    }
    Ops ops(c, c.pick({ 12u, 30u, 80u }), 400);
    while (ops.next())
    {
        const Bytes b = line.carry(c, t.next(c));
        // the receiver reads the line in arbitrary pieces; control calls fall between any two bytes
        for (size_t i = 0; i < b.size();)
        {
            if (p_reset && c.pm(b.size() > 64 ? 1 : p_reset))
            {
                c.fault("reset");
                rig.reset();
            }
            if (p_group && c.pm(b.size() > 64 ? 1 : p_group))
            {
                rig.set_group(uint8_t(c.choose(16)));
                c.probe("group changed");
            }
            if (p_enable && c.pm(b.size() > 64 ? 1 : p_enable))
            {
                rig.enable(!rig.model.enabled);
                c.fault("callbacks toggled");
            }
            if (p_block && c.pm(p_block))
            {
                const size_t n = std::min<size_t>(b.size() - i, c.choose(4) ? 1 + c.choose(4 + uint32_t(b.size() / 64)) : 1 + c.choose(uint32_t(b.size() - i)));
                rig.feed_block(b.data() + i, n, int(c.choose(2)));
                c.probe("block fed");
                i += n;
            }
            else
            {
                const size_t n = (p_reset | p_group | p_enable) && b.size() <= 64 ? 1 : std::min<size_t>(b.size() - i, 64);
                for (size_t k = 0; k < n; ++k)
                    rig.feed(b[i++]);
            }
            c.advance(320000); // 10 bits at 31250 Bd
        }
        if (!rig.model.enabled && c.choose(3) == 0)
            rig.enable(true);
    }
    // healing: after the last fault the next status byte synchronises the receiver
    rig.enable(true);
    for (uint8_t b : { 0x90, 0x40, 0x41, 0xB1, 0x02, 0x03, 0x04, 0x05, 0xF6 })
        rig.feed(b);
    if (rig.delivered_packets > 6 && c.events() > 20)
        c.nontrivial();
}

const Scenario& sim::scenario()
{
    static const Scenario s{ "C01",
                             "seeded simulated MIDI cable (transmitter with running status, real time, SysEx, garbage and cut off messages; byte loss, "
                             "duplication, bit flips, swaps, noise; resets, group changes, callback toggles; arbitrary read sizes); non-trivial: at least one message "
                             "beyond the closing ones was reported and more than 20 events happened; distinct by hash of the complete event log",
                             run, 180000, false,
                             "midi1_byte_stream_parser (all of feed/reset/set_group/enable_callbacks)",
                             "transmitter, serial line, application callbacks",
                             "group changes inside a message: either group accepted until the next status byte" };
    return s;
}
