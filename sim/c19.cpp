// C19: UMP to MIDI 1 byte stream and back loses nothing
#include "coll.h"
using namespace sim;

namespace {

//! something the far end has to report
struct Event
{
    bool     sysex = false;
    uint32_t word  = 0; // without group
    Bytes    bytes;     // between F0 and F7
    bool     operator==(const Event& o) const { return sysex == o.sysex && word == o.word && bytes == o.bytes; }
};
std::string show(const Event& e)
{
    if (e.sysex)
        return "SysEx " + hex(e.bytes);
    char b[16];
    snprintf(b, sizeof b, "%08x", e.word);
    return b;
}

struct Tagged // a byte on the line and what it completes
{
    uint8_t              b;
    std::optional<Event> event;
};

//! the library's conversion of one packet, with a watched buffer
Bytes convert(Ctx& c, const Packet& p)
{
    Bytes r;
    for (int pass = 0; pass < 2; ++pass)
    {
        const uint8_t mark = pass ? 0x5A : 0xA5;
        uint8_t       buf[24];
        std::memset(buf, mark, sizeof buf);
        const size_t n = midi::to_midi1_byte_stream(p, buf + 8);
        c.check();
        if (n > 8)
            c.fail("size", "packet %s converted to %zu bytes", str(p).c_str(), n);
        for (size_t i = 0; i < sizeof buf; ++i)
            if ((i < 8 || i >= 8 + n) && buf[i] != mark)
                c.fail("size", "conversion of %s reports %zu bytes but wrote byte %d", str(p).c_str(), n, int(i) - 8);
        if (pass && r != Bytes(buf + 8, buf + 8 + n))
            c.fail("size", "conversion of %s does not write all the %zu bytes it reports", str(p).c_str(), n);
        r.assign(buf + 8, buf + 8 + n);
    }
    c.ev("convert", (uint64_t(p.data[0]) << 32) | p.data[1], r.size(), r.empty() ? 0 : r[0]);
    return r;
}

uint32_t gen_channel_voice(Ctx& c, uint8_t running)
{
    uint8_t s = uint8_t(0x80 + (c.choose(7) << 4) + c.choose(16));
    if (running && c.choose(2))
        s = running;
    return (uint32_t(s) << 16) | (uint32_t(Talker::data(c)) << 8) | (ByteModel::data_bytes(s) > 1 ? Talker::data(c) : 0u);
}
uint32_t gen_common(Ctx& c)
{
    const uint8_t s = c.pick({ uint8_t(0xF1), uint8_t(0xF2), uint8_t(0xF3), uint8_t(0xF6) });
    const int     n = ByteModel::data_bytes(s);
    return (uint32_t(s) << 16) | (n > 0 ? uint32_t(Talker::data(c)) << 8 : 0u) | (n > 1 ? uint32_t(Talker::data(c)) : 0u);
}
uint8_t gen_rt(Ctx& c) { return c.pick({ uint8_t(0xF8), uint8_t(0xFA), uint8_t(0xFB), uint8_t(0xFC), uint8_t(0xFE), uint8_t(0xFF) }); }

//! a packet without MIDI 1 form
Packet gen_formless(Ctx& c)
{
    Packet p;
    switch (c.choose(6))
    {
    case 0: p.data[0] = (c.pick({ 0u, 4u, 5u, 6u, 7u, 8u, 9u, 10u, 11u, 12u, 13u, 14u, 15u }) << 28) | c.choose(1u << 28); break;
    case 1: p.data[0] = 0x10000000u | (c.choose(16) << 24) | (uint32_t(c.pick({ 0xF0, 0xF4, 0xF5, 0xF7, 0xF9, 0xFD })) << 16) | c.choose(1u << 16); break; // undefined
    case 2: p.data[0] = 0x10000000u | (c.choose(16) << 24) | (c.choose(0xF0) << 16) | c.choose(1u << 16); break;                                           // no system status
    case 3: p.data[0] = 0x20000000u | (c.choose(16) << 24) | (c.choose(0x80) << 16) | c.choose(1u << 16); break;                                           // no channel voice status
    case 4: p.data[0] = 0x20000000u | (c.choose(16) << 24) | ((0xF0 + c.choose(16)) << 16) | c.choose(1u << 16); break;
    default: p.data[0] = 0x30000000u | (c.choose(16) << 24) | (c.choose(2) ? (4 + c.choose(12)) << 20 | c.choose(16) << 16 : c.choose(4) << 20 | (7 + c.choose(9)) << 16) | c.choose(1u << 16); break;
    }
    for (size_t i = 1; i < ump_words(p.data[0]); ++i)
        p.data[i] = c.u32();
    return p;
}

//! the far end
struct FarEnd
{
    Ctx&                                          c;
    const char*                                   name;
    uint8_t                                       group;
    std::deque<Event>                             expected;
    std::function<void(const Packet&)>            hook; // packets as they come out
    std::optional<midi::midi1_byte_stream_parser> parser;
    Bytes                                         run;
    bool                                          open = false;
    uint64_t                                      seen = 0;

    FarEnd(Ctx& ctx, const char* n, uint8_t g, bool callback) : c(ctx), name(n), group(g)
    {
        auto pcb = [this](midi::universal_packet p) { packet(p); };
        if (callback)
            parser.emplace(g, pcb, [this](const midi::sysex7& s) {
                Event      e;
                const auto m = to_msg(s);
                e.sysex      = true;
                e.bytes      = man_bytes7(m.man);
                e.bytes.insert(e.bytes.end(), m.data.begin(), m.data.end());
                report(e);
            });
        else
            parser.emplace(g, pcb);
        parser->set_group(g);
    }
    void report(const Event& e)
    {
        c.check();
        c.ev("report", e.word, e.bytes.size());
        if (expected.empty())
            c.fail("invented", "%s: %s came out, nothing was due", name, show(e).c_str());
        if (!(expected.front() == e))
            c.fail("changed", "%s: %s came out, %s was due", name, show(e).c_str(), show(expected.front()).c_str());
        expected.pop_front();
        ++seen;
    }
    void packet(const Packet& p)
    {
        if (hook)
            hook(p);
        if (((p.data[0] >> 24) & 15) != group)
            c.fail("group", "%s: packet %s not on group %u", name, str(p).c_str(), group);
        auto f = decode<7>(p);
        if (!f)
        {
            Event      e;
            e.word = p.data[0] & 0xF0FFFFFFu;
            report(e);
            return;
        }
        if (f->form == Frag::complete || f->form == Frag::start)
            run.clear();
        else if (!open)
            c.fail("form", "%s: %s without start", name, str(p).c_str());
        run.insert(run.end(), f->payload.begin(), f->payload.end());
        open = f->form == Frag::start || f->form == Frag::cont;
        if (!open)
        {
            Event e;
            e.sysex = true;
            e.bytes = run;
            report(e);
        }
    }
    void feed(const Bytes& b)
    {
        std::unique_ptr<uint8_t[]> exact(new uint8_t[b.size() ? b.size() : 1]);
        std::copy(b.begin(), b.end(), exact.get());
        parser->feed(exact.get(), b.size());
    }
};

void run(Ctx& c)
{
    const uint8_t  g_in = uint8_t(c.choose(16)), g_out = uint8_t(c.choose(16));
    const bool     callback = c.choose(3) == 2;
    const bool     second   = !callback && c.choose(2);
    const bool     compress = c.choose(2);
    const uint32_t p_cut = c.pick({ 0u, 0u, 300u });
    const uint32_t p_rt = c.pick({ 0u, 50u, 250u }), p_formless = c.pick({ 0u, 100u, 300u });
    SizeProfile    sizes;
    sizes.large = c.choose(10) == 9;

    FarEnd end(c, "far end", g_out, callback), end2(c, "second hop", uint8_t(c.choose(16)), c.choose(2));
    if (second)
        end.hook = [&](const Packet& p) {
            const Bytes b = convert(c, p);
            // the bytes of one packet, in two portions
            const size_t k = c.choose(uint32_t(b.size() + 1));
            end2.feed(Bytes(b.begin(), b.begin() + long(k)));
            end2.feed(Bytes(b.begin() + long(k), b.end()));
        };

    std::vector<Tagged> line;
    uint8_t             running  = 0; // status valid at the far end
    uint64_t            messages = 0, rts = 0, formless = 0, dropped = 0;
    auto                realtime = [&](std::vector<Tagged>& to) {
        Tagged t{ gen_rt(c), Event{} };
        t.event->word = 0x10000000u | (uint32_t(t.b) << 16);
        to.push_back(t);
        ++rts;
    };
    auto no_form = [&] {
        const Packet p = gen_formless(c);
        const Bytes  b = convert(c, p);
        c.check();
        if (!b.empty())
            c.fail("formless", "packet %s has no MIDI 1 form but was converted to %s", str(p).c_str(), hex(b).c_str());
        if (midi::midi1_byte_stream_size(p) != 0)
            c.fail("formless", "packet %s has no MIDI 1 form but a size of %zu", str(p).c_str(), midi::midi1_byte_stream_size(p));
        // and bytes that are no message make no packet
        const uint8_t st = c.choose(2) ? uint8_t(c.choose(0x80)) : c.pick({ uint8_t(0xF0), uint8_t(0xF4), uint8_t(0xF5), uint8_t(0xF7), uint8_t(0xF9), uint8_t(0xFD) });
        const auto    q  = midi::from_midi1_byte_stream(st, Talker::data(c), Talker::data(c));
        if (q.data[0])
            c.fail("formless", "packet %08x made from status byte %02x", q.data[0], st);
        ++formless;
    };
    auto single = [&](uint32_t word) {
        const Packet p(word | (uint32_t(g_in) << 24));
        Bytes        b = convert(c, p);
        c.check();
        const size_t size = midi::midi1_byte_stream_size(p);
        if (b.size() != size)
            c.fail("size", "packet %s converted to %zu bytes, announced %zu", str(p).c_str(), b.size(), size);
        if (b.empty())
            c.fail("lost", "packet %s has a MIDI 1 form but was not converted", str(p).c_str());
        const auto q = midi::from_midi1_byte_stream(b[0], b.size() > 1 ? b[1] : uint8_t(0), b.size() > 2 ? b[2] : uint8_t(0));
        if (q.data[0] != word)
            c.fail("changed", "packet %08x made from the bytes of %08x", q.data[0], word);
        std::vector<Tagged> t;
        for (auto x : b)
            t.push_back({ x, {} });
        t.back().event       = Event{};
        t.back().event->word = word;
        const uint8_t st     = b[0];
        if (st < 0xF0)
        {
            if (compress && st == running && c.choose(2)) // the line uses running status
            {
                t.erase(t.begin());
                ++dropped;
            }
            running = st;
        }
        else if (st < 0xF8)
            running = 0;
        return t;
    };
    auto push = [&](const std::vector<Tagged>& t) {
        const size_t dense = t.size() > 80 ? t.size() / 40 : 1;
        for (size_t i = 0; i < t.size(); ++i)
        {
            if (p_rt && i && i % dense == 0 && c.pm(p_rt))
                realtime(line);
            line.push_back(t[i]);
        }
    };
    auto flush = [&](bool all) {
        size_t at = 0;
        while (at < line.size() && (all || c.choose(4)))
        {
            const size_t n = 1 + c.choose(uint32_t(std::min<size_t>(line.size() - at, 300)));
            Bytes        b;
            for (size_t i = 0; i < n; ++i)
            {
                b.push_back(line[at + i].b);
                if (line[at + i].event)
                {
                    end.expected.push_back(*line[at + i].event);
                    if (second)
                        end2.expected.push_back(*line[at + i].event);
                }
            }
            c.ev("portion", n);
            c.text("  line: %s", hex(b, 60).c_str());
            end.feed(b);
            at += n;
            if (!end.expected.empty())
                c.fail("late", "%s not reported when its last byte arrived", show(end.expected.front()).c_str());
            if (second && !end2.expected.empty())
                c.fail("late", "second hop: %s not reported when its last byte arrived", show(end2.expected.front()).c_str());
            c.advance(320000 * n);
        }
        line.erase(line.begin(), line.begin() + long(at));
    };

    Ops ops(c, c.pick({ 6u, 25u, 60u }), 200);
    while (ops.next())
    {
        if (p_formless && c.pm(p_formless))
            no_form();
        switch (c.weighted({ 8, 3, 3, 3 }))
        {
        case 0: push(single(0x20000000u | gen_channel_voice(c, running))); break;
        case 1: push(single(0x10000000u | gen_common(c))); break;
        case 2:
            push(single(0x10000000u | (uint32_t(gen_rt(c)) << 16)));
            break;
        default:
        {
            const Msg           m = gen_msg(c, 0x7F, sizes);
            std::vector<Packet> v;
            if (c.choose(2))
                v = packetise<7>(c, m, g_in, 0, false);
            else
            {
                // any other fragmentation is as good
                Bytes all = man_bytes7(m.man);
                all.insert(all.end(), m.data.begin(), m.data.end());
                for (size_t at = 0; at < all.size() || v.size() < 2;)
                {
                    Frag f;
                    f.group = g_in;
                    f.form  = v.empty() ? Frag::start : Frag::cont;
                    size_t n = all.size() > 200 ? 6 : c.choose(7);
                    n        = std::min(n, all.size() - at);
                    f.payload.assign(all.begin() + long(at), all.begin() + long(at + n));
                    at += n;
                    v.push_back(encode<7>(f));
                }
                auto f = *decode<7>(v.back());
                f.form = Frag::end;
                v.back() = encode<7>(f);
            }
            c.text("  SysEx %s in %zu packets", str(m).c_str(), v.size());
            std::vector<Tagged> t;
            const size_t        dense = v.size() > 40 ? v.size() / 20 : 1;
            const bool          cut   = p_cut && v.size() > 1 && c.pm(p_cut); // the sender stops in the middle
            if (cut)
            {
                c.fault("SysEx cut off");
                v.resize(1 + c.choose(uint32_t(v.size() - 1)));
            }
            for (size_t i = 0; i < v.size(); ++i)
            {
                if (i % dense == 0)
                {
                    if (p_formless && c.pm(p_formless))
                        no_form();
                    if (p_rt && i && c.pm(p_rt)) // a real time packet between the packets
                    {
                        auto r = single(0x10000000u | (uint32_t(gen_rt(c)) << 16));
                        t.insert(t.end(), r.begin(), r.end());
                        ++rts;
                    }
                }
                for (auto x : convert(c, v[i]))
                    t.push_back({ x, {} });
            }
            if (cut)
            {
                running = 0;
                push(t);
                break;
            }
            Event e;
            e.sysex = true;
            e.bytes = man_bytes7(m.man);
            e.bytes.insert(e.bytes.end(), m.data.begin(), m.data.end());
            if (t.empty() || t.back().b != 0xF7)
                c.fail("lost", "SysEx %s converted to no closed SysEx", str(m).c_str());
            t.back().event = e;
            running        = 0;
            push(t);
        }
        }
        ++messages;
        c.state((uint64_t(running) << 16) | (uint64_t(end.open) << 8) | std::min<size_t>(line.size(), 255));
        if (c.choose(2))
            flush(false);
    }
    flush(true);
    c.probe("messages converted", messages);
    c.probe("real time squeezed in", rts);
    c.probe("packets without MIDI 1 form", formless);
    c.probe("running status used", dropped);
    c.probe("reported at second hop", end2.seen);
    if (messages >= 2)
        c.nontrivial();
}
} // namespace

const Scenario& sim::scenario()
{
    static const Scenario s{ "C19",
                             "packet sequences converted to bytes, sent over a simulated line with running status, real time bytes at seeded positions and seeded portions, parsed, optionally converted and parsed "
                             "again; non-trivial: at least two messages; distinct by hash of the complete event log",
                             run, 60000, false, "to_midi1_byte_stream, midi1_byte_stream_size, from_midi1_byte_stream, midi1_byte_stream_parser, send_sysex7", "line, running status compression",
                             "well-formed input: data bytes have 7 bits, unused data bytes are zero, only real time between the packets of a SysEx" };
    return s;
}
