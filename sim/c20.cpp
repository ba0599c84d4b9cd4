// C20: MIDI 1 / MIDI 2 gateway
#include "world.h"
#include <midi/channel_voice_message.h>
using namespace sim;

namespace {

//! MIDI 2.0 bit scaling and resolution, written from the specification: min, centre and max are kept
uint32_t upscale(uint32_t v, unsigned from, unsigned to)
{
    const uint32_t centre = 1u << (from - 1);
    if (v <= centre)
        return v << (to - from);
    // repeat the bits below the highest one, bit by bit
    uint32_t r = v << (to - from);
    unsigned k = from - 1;
    for (unsigned i = 0; i < to - from; ++i)
    {
        const uint32_t bit = (v >> (k - 1 - (i % k))) & 1;
        r |= bit << (to - from - 1 - i);
    }
    return r;
}

bool untranslated(uint32_t cc) { return cc == 0 || cc == 32 || cc == 6 || cc == 38 || cc == 88 || (cc >= 98 && cc <= 101); }

struct Two
{
    uint32_t w0, w1;
};
//! MIDI 1 packet -> MIDI 2 packet
std::optional<Two> to_midi2(uint32_t w)
{
    const uint32_t head = 0x40000000u | (w & 0x0F000000u), ch = (w >> 16) & 15, d1 = (w >> 8) & 0x7F, d2 = w & 0x7F;
    auto           make = [&](uint32_t st, uint32_t b3, uint32_t data) { return Two{ head | ((st | ch) << 16) | (b3 << 8), data }; };
    switch ((w >> 20) & 15)
    {
    case 0x8: return make(0x80, d1, upscale(d2, 7, 16) << 16);
    case 0x9: return d2 ? make(0x90, d1, upscale(d2, 7, 16) << 16) : make(0x80, d1, 0x80000000u);
    case 0xA: return make(0xA0, d1, upscale(d2, 7, 32));
    case 0xB:
        if (untranslated(d1))
            return {};
        return make(0xB0, d1, upscale(d2, 7, 32));
    case 0xC: return make(0xC0, 0, d1 << 24);
    case 0xD: return make(0xD0, 0, upscale(d1, 7, 32));
    case 0xE: return make(0xE0, 0, upscale(d1 | (d2 << 7), 14, 32));
    default: return {};
    }
}
//! MIDI 2 packet -> MIDI 1 packet
std::optional<uint32_t> to_midi1(const Packet& p)
{
    const uint32_t head = 0x20000000u | (p.data[0] & 0x0FFF0000u), b3 = (p.data[0] >> 8) & 0x7F, b4 = p.data[0] & 0xFF, d = p.data[1];
    switch ((p.data[0] >> 20) & 15)
    {
    case 0x8: return b4 ? std::optional<uint32_t>() : head | (b3 << 8) | (d >> 25);
    case 0x9: return b4 ? std::optional<uint32_t>() : head | (b3 << 8) | std::max<uint32_t>(1, d >> 25);
    case 0xA: return head | (b3 << 8) | (d >> 25);
    case 0xB: return untranslated(b3) ? std::optional<uint32_t>() : head | (b3 << 8) | (d >> 25);
    case 0xC: return (b4 & 1) ? std::optional<uint32_t>() : head | ((d >> 24 & 0x7F) << 8);
    case 0xD: return head | ((d >> 25) << 8);
    case 0xE: return head | (((d >> 18) & 0x7F) << 8) | (d >> 25);
    default: return {};
    }
}

//! what the protocol independent accessors have to say about a MIDI 1 or MIDI 2 message
void check_accessors(Ctx& c, const Packet& p, const Two& t)
{
    c.check();
    const uint32_t st = (t.w0 >> 20) & 15, b3 = (t.w0 >> 8) & 0x7F;
    auto           bad = [&](const char* what) { c.fail("accessor", "%s of packet %s is wrong (equivalent to %08x %08x)", what, str(p).c_str(), t.w0, t.w1); };
    if (p.group() != ((t.w0 >> 24) & 15) || p.channel() != ((t.w0 >> 16) & 15))
        bad("group or channel");
    if (!p.is_channel_voice_message())
        bad("is_channel_voice_message");
    if (midi::is_note_off_message(p) != (st == 8))
        bad("is_note_off_message");
    if (midi::is_note_on_message(p) != (st == 9))
        bad("is_note_on_message");
    if (midi::is_poly_pressure_message(p) != (st == 10))
        bad("is_poly_pressure_message");
    if (midi::is_control_change_message(p) != (st == 11))
        bad("is_control_change_message");
    if (midi::is_program_change_message(p) != (st == 12))
        bad("is_program_change_message");
    if (midi::is_channel_pressure_message(p) != (st == 13))
        bad("is_channel_pressure_message");
    if (midi::is_channel_pitch_bend_message(p) != (st == 14))
        bad("is_channel_pitch_bend_message");
    switch (st)
    {
    case 8:
    case 9:
        if (midi::get_note_nr(p) != b3)
            bad("get_note_nr");
        if (midi::get_note_velocity(p).value != (t.w1 >> 16))
            bad("get_note_velocity");
        if (midi::get_note_pitch(p).value != (st == 9 && (t.w0 & 0xFF) == 3 ? t.w1 & 0xFFFF : b3 << 9))
            bad("get_note_pitch");
        break;
    case 10:
        if (midi::get_note_nr(p) != b3)
            bad("get_note_nr");
        if (midi::get_poly_pressure_value(p).value != t.w1)
            bad("get_poly_pressure_value");
        break;
    case 11:
        if (midi::get_controller_nr(p) != b3)
            bad("get_controller_nr");
        if (midi::get_controller_value(p).value != t.w1)
            bad("get_controller_value");
        break;
    case 12:
        if (midi::get_program_value(p) != (t.w1 >> 24))
            bad("get_program_value");
        break;
    case 13:
        if (midi::get_channel_pressure_value(p).value != t.w1)
            bad("get_channel_pressure_value");
        break;
    case 14:
        if (midi::get_channel_pitch_bend_value(p).value != t.w1)
            bad("get_channel_pitch_bend_value");
        break;
    default: break;
    }
}

uint32_t gen_value(Ctx& c)
{
    switch (c.choose(5))
    {
    case 4: // next to a power of two, counted from zero or from the centre, up or down
    {
        const uint32_t step = 1u << c.choose(32), base = c.choose(2) ? 0x80000000u : 0u, off = c.pick({ 0u, 1u, 0xFFFFFFFFu });
        return (c.choose(2) ? base - step : base + step) + off;
    }
    case 0: return c.u32();
    case 1: return c.pick({ 0x80000000u, 0u, 0xFFFFFFFFu, 1u, 0x7FFFFFFFu, 0x80000001u, 0x02000000u, 0x01FFFFFFu, 0x0003FFFFu, 0x00040000u, 0xFE000000u, 0xFDFFFFFFu });
    case 2: return upscale(c.choose(128), 7, 32);
    default: return c.choose(128) << 25;
    }
}

//! a player of MIDI 2 messages
Packet gen_native(Ctx& c, uint32_t group)
{
    static const std::vector<uint32_t> st{ 9, 8, 10, 11, 12, 13, 14, 0, 1, 2, 3, 4, 5, 6, 15 };
    const uint32_t                     s = c.pick(st), ch = c.choose(16);
    Packet                             p;
    uint32_t                           b3 = c.choose(128), b4 = 0, d = gen_value(c);
    switch (s)
    {
    case 8:
    case 9:
        if (c.choose(3) == 2)
            b4 = 1 + c.choose(3);
        else
            d &= 0xFFFF0000u;
        break;
    case 12:
        b3 = 0;
        b4 = c.choose(2);
        d &= b4 ? 0x7F007F7Fu : 0x7F000000u;
        break;
    case 13:
    case 14: b3 = 0; break;
    case 0:
    case 1: b4 = c.choose(256); break;
    case 2:
    case 3:
    case 4:
    case 5: b4 = c.choose(128); break;
    case 15:
        b4 = c.choose(4);
        d  = 0;
        break;
    default: break;
    }
    p.data[0] = 0x40000000u | (group << 24) | (s << 20) | (ch << 16) | (b3 << 8) | b4;
    p.data[1] = d;
    return p;
}

//! the words of a byte stream's messages that are not SysEx
struct Line // serial line with a parser at its end
{
    Ctx&                                          c;
    const char*                                   name;
    std::deque<uint32_t>                          expected;
    std::function<void(const Packet&)>            out;
    std::optional<midi::midi1_byte_stream_parser> parser;
    uint64_t                                      n = 0;

    Line(Ctx& ctx, const char* nm, uint8_t group, bool callback) : c(ctx), name(nm)
    {
        auto cb = [this](midi::universal_packet p) {
            if ((p.data[0] >> 28) == 3)
                return;
            c.check();
            if (expected.empty() || expected.front() != p.data[0])
                c.fail(expected.empty() ? "invented" : "changed", "%s: %08x came out, %08x was due", name, p.data[0], expected.empty() ? 0 : expected.front());
            expected.pop_front();
            ++n;
            if (out)
                out(p);
        };
        if (callback)
            parser.emplace(group, cb, [](const midi::sysex7&) {});
        else
            parser.emplace(group, cb);
    }
    void feed(const Bytes& b)
    {
        parser->feed(b.data(), b.size());
        if (!expected.empty())
            c.fail("lost", "%s: %08x did not come out", name, expected.front());
    }
};

void run(Ctx& c)
{
    const uint32_t n_src  = 1 + c.choose(3);
    const uint32_t p_loss = c.pick({ 0u, 0u, 60u, 250u }), p_dup = c.pick({ 0u, 0u, 60u }), p_native = c.pick({ 0u, 200u, 500u });
    const uint32_t base   = c.choose(16);
    auto           group  = [&](uint32_t i) { return uint8_t((base + 5 * i) & 15); };

    struct InFlight
    {
        Packet                  p;
        std::optional<uint32_t> due; // at the MIDI 1 side
    };
    struct Path
    {
        Talker                talker;
        ByteModel             model;
        std::unique_ptr<Line> in, out;
        std::deque<InFlight>  link;
        uint8_t               running = 0;
    };
    std::vector<Path> paths(n_src);
    uint64_t          translated = 0, native = 0, back = 0, dropped = 0;

    for (uint32_t i = 0; i < n_src; ++i)
    {
        auto& x             = paths[i];
        x.talker.w_channel  = 10;
        x.talker.w_running  = 8;
        x.talker.w_common   = 2;
        x.talker.w_sysex    = 1;
        x.model.group       = group(i);
        x.in                = std::make_unique<Line>(c, "MIDI 1 input", group(i), c.choose(2));
        x.out               = std::make_unique<Line>(c, "MIDI 1 output", group(i), true);
        x.in->out           = [&, i](const Packet& p) {
            auto v = midi::as_midi1_channel_voice_message_view(p);
            if (bool(v) != ((p.data[0] >> 28) == 2))
                c.fail("view", "MIDI 1 view of packet %s", str(p).c_str());
            if (!v)
            {
                paths[i].link.push_back({ p, p.data[0] });
                return;
            }
            const auto want = to_midi2(p.data[0]);
            const auto got  = midi::as_midi2_channel_voice_message(*v);
            c.check();
            c.ev("up", p.data[0], got ? got->data[1] : 0, bool(got));
            if (bool(want) != bool(got))
                c.fail("translation", "MIDI 1 message %s was %stranslated", str(p).c_str(), got ? "" : "not ");
            if (!got)
            {
                ++dropped;
                return;
            }
            if (got->data[0] != want->w0 || got->data[1] != want->w1)
                c.fail("translation", "MIDI 1 message %s was translated to %s, not %08x %08x", str(p).c_str(), str(*got).c_str(), want->w0, want->w1);
            check_accessors(c, p, *want);
            ++translated;
            paths[i].link.push_back({ *got, to_midi1(Packet(want->w0, want->w1)) });
        };
    }
    auto deliver = [&](Path& x) {
        InFlight f = x.link.front();
        x.link.pop_front();
        if (p_loss && c.pm(p_loss))
        {
            c.fault("packet lost");
            return;
        }
        const int copies = (p_dup && c.pm(p_dup)) ? 2 : 1;
        if (copies == 2)
            c.fault("packet duplicated");
        for (int k = 0; k < copies; ++k)
        {
            Packet q   = f.p;
            auto   v   = midi::as_midi2_channel_voice_message_view(q);
            c.check();
            if (bool(v) != ((q.data[0] >> 28) == 4))
                c.fail("view", "MIDI 2 view of packet %s", str(q).c_str());
            if (v)
            {
                if (v->group() != ((q.data[0] >> 24) & 15) || v->channel() != ((q.data[0] >> 16) & 15) || v->data() != q.data[1])
                    c.fail("view", "fields of packet %s", str(q).c_str());
                check_accessors(c, q, Two{ q.data[0], q.data[1] });
                const auto got = midi::as_midi1_channel_voice_message(*v);
                c.ev("down", (uint64_t(q.data[0]) << 32) | q.data[1], got ? got->data[0] : 0);
                if (bool(got) != bool(f.due))
                    c.fail("translation", "MIDI 2 message %s was %stranslated", str(q).c_str(), got ? "" : "not ");
                if (!got)
                {
                    ++dropped;
                    continue;
                }
                if (got->data[0] != *f.due)
                    c.fail("translation", "MIDI 2 message %s was translated to %s, not %08x", str(q).c_str(), str(*got).c_str(), *f.due);
                q = *got;
                ++back;
            }
            uint8_t      buf[8]{};
            const size_t n = midi::to_midi1_byte_stream(q, buf);
            Bytes        b(buf, buf + std::min<size_t>(n, 8));
            if (b.empty())
                c.fail("lost", "packet %s has no bytes", str(q).c_str());
            if (b[0] < 0xF0)
            {
                const uint8_t s = b[0];
                if (s == x.running && c.choose(2))
                    b.erase(b.begin());
                x.running = s;
            }
            else if (b[0] < 0xF8)
                x.running = 0;
            x.out->expected.push_back(*f.due);
            x.out->feed(b);
        }
    };

    Ops ops(c, c.pick({ 8u, 30u, 80u }), 300);
    while (ops.next())
    {
        const uint32_t i = c.choose(n_src);
        auto&          x = paths[i];
        if (p_native && c.pm(p_native))
        {
            const Packet p = gen_native(c, group(i));
            x.link.push_back({ p, to_midi1(p) });
            c.ev("native", (uint64_t(p.data[0]) << 32) | p.data[1]);
            ++native;
        }
        else
        {
            Bytes b;
            for (auto y : x.talker.next(c))
            {
                b.push_back(y);
                const auto o = x.model.feed(y);
                if (o.packet)
                    x.in->expected.push_back(o.word);
                if (c.choose(8) == 7)
                {
                    x.in->feed(b);
                    b.clear();
                }
            }
            c.text("  bytes %s", hex(b).c_str());
            x.in->feed(b);
        }
        for (uint32_t k = c.choose(6); k; --k)
        {
            auto& y = paths[c.choose(n_src)];
            if (!y.link.empty())
                deliver(y);
        }
        c.advance(1000000);
        uint64_t h = 0;
        for (auto& y : paths)
            h = h * 7919 + (uint64_t(y.running) << 12) + (uint64_t(y.model.status) << 4) + std::min<size_t>(y.link.size(), 15);
        c.state(h);
    }
    for (auto& y : paths)
        while (!y.link.empty())
            deliver(y);
    c.probe("translated to MIDI 2", translated);
    c.probe("translated to MIDI 1", back);
    c.probe("native MIDI 2", native);
    c.probe("without translation", dropped);
    if (translated >= 2 && back >= 2)
        c.nontrivial();
}
} // namespace

const Scenario& sim::scenario()
{
    static const Scenario s{ "C20",
                             "MIDI 1 byte streams -> parser -> MIDI 2 translation -> link -> MIDI 1 translation -> byte stream -> parser, several groups, native MIDI 2 messages mixed in; non-trivial: at least two messages "
                             "translated each way; distinct by hash of the complete event log",
                             run, 300000, false, "midi1_byte_stream_parser, as_midi2_channel_voice_message, as_midi1_channel_voice_message, protocol independent accessors, to_midi1_byte_stream, scaling functions",
                             "MIDI 1 devices, link, gateway application", "SysEx is not carried by the simulated gateway; native note attributes and per note controllers have their defined values" };
    return s;
}
