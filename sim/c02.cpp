// C02: System real time bytes are transparent wherever they fall
#include "world.h"
using namespace sim;

namespace {
struct Node // a receiver: real parser, optionally with the collector behind it
{
    struct Item
    {
        int    kind; // 0 packet, 1 sysex
        Packet p;
        Msg    m;
        bool   operator==(const Item& o) const
        {
            return kind == o.kind && (kind ? m == o.m : (p.data[0] == o.p.data[0] && (ump_words(p.data[0]) < 2 || p.data[1] == o.p.data[1])));
        }
    };
    std::vector<Item>              out;
    midi::midi1_byte_stream_parser p;
    Node(uint8_t group, bool cb, bool enabled)
      : p(group,
          [this](Packet q) {
              mem::App a;
              out.push_back({ 0, q, {} });
          },
          cb ? midi::midi1_byte_stream_parser::sysex_callback([this](const midi::sysex7& s) {
              mem::App a;
              out.push_back({ 1, {}, to_msg(s) });
          })
             : midi::midi1_byte_stream_parser::sysex_callback{},
          enabled)
    {
    }
};
std::string str(const Node::Item& i) { return i.kind ? "sysex " + sim::str(i.m) : "packet " + sim::str(i.p); }

void run(Ctx& c)
{
    Talker t;
    t.sizes.large   = c.choose(10) == 9 ? 1 : 0;
    t.w_past        = c.choose(150) == 149 ? 2 : 0;
    t.rt_in_message = c.pick({ 0u, 50u });
    t.w_sysex       = c.pick({ 3u, 8u });
    SerialLine line;
    if (c.choose(3) == 2)
        line.draw_rates(c);
    const uint32_t p_rt    = c.pick({ 30u, 120u, 350u, 700u });
    const uint32_t p_reset = c.pick({ 0u, 0u, 15u }), p_group = c.pick({ 0u, 0u, 15u }), p_enable = c.pick({ 0u, 0u, 20u });
    const bool     cb      = c.choose(2);
    uint8_t        group   = uint8_t(c.choose(16));
    bool           enabled = true;
    const bool     block   = c.choose(3) == 2;

    Node     a(group, cb, enabled), b(group, cb, enabled);
    uint64_t inserted = 0, inside = 0, others = 0;

    Ops ops(c, c.pick({ 8u, 25u, 60u }), 300);
    while (ops.next())
    {
        const Bytes    s    = line.carry(c, t.next(c));
        const uint32_t step = s.size() > 96 ? uint32_t(s.size() / 48) : 1;
        for (size_t i = 0; i < s.size(); ++i)
        {
            const bool point = (i % step) == 0 || i + 1 == s.size();
            if (point)
            {
                if (p_reset && c.pm(p_reset))
                {
                    c.fault("reset");
                    a.p.reset();
                    b.p.reset();
                }
                if (p_group && c.pm(p_group))
                {
                    group = uint8_t(c.choose(16));
                    a.p.set_group(group);
                    b.p.set_group(group);
                }
                if (p_enable && c.pm(p_enable))
                {
                    c.fault("callbacks toggled");
                    enabled = !enabled;
                    a.p.enable_callbacks(enabled);
                    b.p.enable_callbacks(enabled);
                }
            }
            a.out.clear();
            {
                mem::Lib lib;
                a.p.feed(s[i]);
            }
            c.ev("byte", s[i], a.out.size());
            Bytes                   seq;
            std::vector<Node::Item> want;
            if (point)
                while (c.pm(p_rt) && seq.size() < 4)
                {
                    const uint8_t rt = Talker::realtime(c);
                    seq.push_back(rt);
                    c.fault("real time byte inserted");
                    ++inserted;
                    if (i)
                        ++inside;
                    if (rt != 0xF9 && rt != 0xFD && enabled)
                        want.push_back({ 0, Packet{ 0x10000000u | (uint32_t(group) << 24) | (uint32_t(rt) << 16) }, {} });
                }
            seq.push_back(s[i]);
            for (auto& o : a.out)
                want.push_back(o);
            b.out.clear();
            if (block)
            {
                std::unique_ptr<uint8_t[]> exact(new uint8_t[seq.size()]);
                std::copy(seq.begin(), seq.end(), exact.get());
                mem::Lib lib;
                b.p.feed(exact.get(), seq.size());
            }
            else
            {
                size_t k = 0;
                for (auto x : seq)
                {
                    mem::Lib lib;
                    b.p.feed(x);
                    mem::App app;
                    if (x >= 0xF8 && k + 1 < seq.size()) // immediately
                    {
                        size_t expect = 0;
                        for (size_t q = 0; q <= k; ++q)
                            if (seq[q] != 0xF9 && seq[q] != 0xFD && enabled)
                                ++expect;
                        c.check();
                        if (b.out.size() != expect)
                            c.fail("realtime", "%zu packets after real time byte %02x, expected %zu", b.out.size(), x, expect);
                    }
                    ++k;
                }
            }
            c.check();
            for (size_t k = 0; k < std::max(b.out.size(), want.size()); ++k)
            {
                if (k >= b.out.size())
                    c.fail("missing", "with real time bytes inserted: %s is missing", str(want[k]).c_str());
                if (k >= want.size())
                    c.fail("extra", "with real time bytes inserted: unexpected %s", str(b.out[k]).c_str());
                if (!(b.out[k] == want[k]))
                    c.fail("different", "with real time bytes inserted: %s, without: %s", str(b.out[k]).c_str(), str(want[k]).c_str());
                if (want[k].kind == 0)
                    c.ev("packet", want[k].p.data[0], want[k].p.data[1]);
                else
                    c.ev("sysex", hash(want[k].m));
                if (want[k].kind || (want[k].p.data[0] & 0x10F80000u) != 0x10F80000u)
                    ++others;
            }
            c.state((uint64_t(s[i] >> 4) << 16) | (uint64_t(seq.size()) << 8) | (a.out.size() << 4) | std::min<size_t>(i, 15));
            c.advance(320000);
        }
    }
    c.probe("real time byte inside a message", inside);
    if (inserted && inside && others)
        c.nontrivial();
}
} // namespace

const Scenario& sim::scenario()
{
    static const Scenario s{ "C02",
                             "two receivers on the same simulated MIDI cable, one of them with real time bytes injected at seeded positions (also into runs with line faults, "
                             "resets, group changes and callback toggles); non-trivial: real time bytes fell inside messages and other messages were reported; "
                             "distinct by hash of the complete event log",
                             run, 80000, false, "midi1_byte_stream_parser, twice", "transmitter, serial line, application callbacks", "" };
    return s;
}
