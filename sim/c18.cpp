// C18: Endpoint and function block names survive fragmentation
#include "world.h"
#include <map>
#include <midi/stream_message.h>
using namespace sim;

namespace {

std::string gen_name(Ctx& c, uint32_t size, bool ascii)
{
    // whole UTF-8 characters, no NUL
    std::string    s;
    const uint32_t kind = ascii ? 0 : c.choose(4), salt = c.choose(1u << 16);
    static const char* const wide[] = { "\xc3\xa9", "\xc3\xbf", "\xe2\x82\xac", "\xe6\x97\xa5", "\xf0\x9f\x8e\xb9", "\xc2\x80", "\xef\xbf\xbd", "\xf4\x8f\xbf\xbf" };
    while (s.size() < size)
    {
        const uint64_t r = mix64((uint64_t(salt) << 24) + s.size());
        std::string    x(1, char(kind == 1 ? 1 + r % 127 : ' ' + r % 95));
        if (kind == 2 || (kind == 3 && (r >> 20) % 4 == 0))
            x = wide[(r >> 8) % 8];
        if (s.size() + x.size() > size)
            x = "~";
        s += x;
    }
    return s;
}

//! what a receiving application does: it puts the parts together as their format says
struct Reassembly
{
    bool        open = false;
    std::string text;
    //! true: a name is complete
    bool take(midi::packet_format f, const std::string& part)
    {
        switch (f)
        {
        case midi::packet_format::complete: open = false; text = part; return true;
        case midi::packet_format::start: open = true; text = part; return false;
        case midi::packet_format::cont:
            if (open)
                text += part;
            return false;
        default:
            if (!open)
                return false;
            open = false;
            text += part;
            return true;
        }
    }
};

struct Source // one name being told over and over
{
    int                     kind = 0; // 0 endpoint name, 1 product instance id, 2 function block name
    uint8_t                 block = 0;
    std::deque<Packet>      flight;
    std::deque<std::string> expected; // names under way whose last packet is
    Reassembly              rx;
    bool                    cut = false;
};

void run(Ctx& c)
{
    std::vector<Source> sources;
    sources.push_back({});
    sources.emplace_back();
    sources.back().kind = 1;
    for (uint32_t n = c.choose(5); n; --n)
    {
        Source s;
        s.kind  = 2;
        s.block = uint8_t(c.choose(2) ? c.choose(128) : n);
        bool dup = false;
        for (auto& o : sources)
            dup = dup || (o.kind == 2 && o.block == s.block);
        if (!dup)
            sources.push_back(s);
    }
    const bool     faults  = c.choose(2);
    const uint32_t p_other = c.pick({ 0u, 80u, 300u });
    uint64_t       told = 0, switches = 0;
    size_t         last = 0;

    const bool nest = c.choose(3) == 2;

    std::function<std::vector<Packet>(Source&, const std::string&, size_t, bool)> send = [&](Source& s, const std::string& name, size_t fail_at, bool outer) {
        std::vector<Packet> v;
        const size_t        at  = nest && outer ? c.choose(4) : SIZE_MAX;
        auto                out = [&](const midi::universal_packet& p) {
            if (v.size() == fail_at)
                throw AppError{};
            v.push_back(p);
            if (v.size() == at + 1)
            {
                // in the middle of one name another one is told
                auto& o = sources[c.choose(uint32_t(sources.size()))];
                const auto x = gen_name(c, o.kind == 1 ? c.choose(17) : c.choose(60), o.kind == 1);
                if (&o == &s)
                {
                    // the same kind of name, of another device: read at once
                    Reassembly r;
                    bool       done = false;
                    for (auto& q : send(o, x, SIZE_MAX, false))
                    {
                        if (auto w = midi::as_endpoint_name_view(q))
                            done = r.take(w->format(), std::string(w->payload()));
                        else if (auto w = midi::as_product_instance_id_view(q))
                            done = r.take(w->format(), std::string(w->payload()));
                        else if (auto w = midi::as_function_block_name_view(q))
                            done = r.take(w->format(), std::string(w->payload()));
                    }
                    c.check();
                    if (!done || r.text != x)
                        c.fail("changed", "name '%s' told in the middle of another one reads '%s'", x.c_str(), r.text.c_str());
                    return;
                }
                for (auto& q : send(o, x, SIZE_MAX, false))
                    o.flight.push_back(q);
                o.cut = false;
                o.expected.push_back(x);
                ++told;
                c.probe("names told inside names");
            }
        };
        // the name exactly, so that reads beyond it are caught
        std::unique_ptr<char[]> exact(new char[name.size() ? name.size() : 1]);
        std::copy(name.begin(), name.end(), exact.get());
        const std::string_view n(exact.get(), name.size());
        try
        {
            switch (s.kind)
            {
            case 0: midi::send_endpoint_name(n, out); break;
            case 1: midi::send_product_instance_id(n, out); break;
            default: midi::send_function_block_name(s.block, n, out); break;
            }
        }
        catch (const AppError&)
        {
            c.fault("transport failed");
            c.ev("telling failed", size_t(s.kind), name.size(), v.size());
            return v;
        }
        c.ev("tell", size_t(s.kind), hash_bytes(reinterpret_cast<const uint8_t*>(name.data()), name.size()), v.size());
        c.text("  kind %d block %u: '%s'", s.kind, s.block, name.c_str());
        const size_t room = s.kind == 2 ? 13 : 14, want = name.size() <= room ? 1 : (name.size() + room - 1) / room;
        c.check();
        if (v.size() != want)
            c.fail("form", "name of %zu bytes sent in %zu packets", name.size(), v.size());
        for (size_t i = 0; i < v.size(); ++i)
        {
            const unsigned f = (v[i].data[0] >> 26) & 3, e = v.size() == 1 ? 0 : i == 0 ? 1 : i + 1 == v.size() ? 3 : 2;
            if ((v[i].data[0] >> 28) != 0xF || f != e)
                c.fail("form", "packet %zu of %zu is %s", i, v.size(), str(v[i]).c_str());
        }
        return v;
    };
    auto deliver = [&](size_t i) {
        const Packet p = sources[i].flight.front();
        sources[i].flight.pop_front();
        switches += i != last;
        last = i;
        c.ev("packet", (uint64_t(p.data[0]) << 32) | p.data[1], (uint64_t(p.data[2]) << 32) | p.data[3]);
        c.advance(256000);
        // the receiver sorts by what the packet says
        int                        kind = -1;
        uint8_t                    block = 0;
        midi::packet_format        f{};
        std::string                part;
        if (auto v = midi::as_endpoint_name_view(p))
            kind = 0, f = v->format(), part = v->payload();
        if (auto v = midi::as_product_instance_id_view(p))
        {
            if (kind >= 0)
                c.fail("mistaken", "packet %s has two types", str(p).c_str());
            kind = 1, f = v->format(), part = v->payload();
        }
        if (auto v = midi::as_function_block_name_view(p))
        {
            if (kind >= 0)
                c.fail("mistaken", "packet %s has two types", str(p).c_str());
            kind = 2, f = v->format(), part = v->payload(), block = v->function_block();
        }
        c.check();
        if (kind < 0)
            c.fail("not-recognised", "packet %s not recognised", str(p).c_str());
        bool found = false;
        for (auto& s : sources)
            if (s.kind == kind && (kind != 2 || s.block == block))
            {
                found = true;
                const bool was = s.rx.open;
                if (!s.rx.take(f, part))
                {
                    c.state((uint64_t(kind) << 20) | (uint64_t(was) << 19) | (uint64_t(f) << 16) | std::min<size_t>(s.rx.text.size(), 2000));
                    continue;
                }
                c.ev("known", size_t(kind), s.rx.text.size());
                c.check();
                if (s.expected.empty())
                    c.fail("invented", "name '%s' completed, none was told", s.rx.text.c_str());
                if (s.rx.text != s.expected.front())
                    c.fail("changed", "name of %zu bytes arrived as %zu bytes: '%s' is now '%s'", s.expected.front().size(), s.rx.text.size(), s.expected.front().substr(0, 300).c_str(),
                           s.rx.text.substr(0, 300).c_str());
                s.expected.pop_front();
            }
        if (!found)
            c.fail("mistaken", "packet for kind %d block %u, which nobody sent: %s", kind, block, str(p).c_str());
    };

    Ops ops(c, c.pick({ 4u, 15u }), 100);
    for (bool more = true; more;)
    {
        more = ops.next();
        if (more)
        {
            auto&    s = sources[c.choose(uint32_t(sources.size()))];
            uint32_t z;
            if (s.kind == 1)
                z = c.choose(17);
            else
                switch (c.choose(4))
                {
                case 0: z = c.choose(30); break;
                case 1: z = c.pick({ 13u, 14u, 26u, 27u, 28u, 12u, 15u, 39u, 42u, 98u, 97u, 91u }); break;
                case 2: z = c.choose(120); break;
                default: z = c.choose(12) == 11 ? 1000 + c.choose(3000) : c.choose(60);
                }
            const auto name = gen_name(c, z, s.kind == 1);
            if (faults && c.choose(6) == 5)
            {
                // the transport fails in the middle of a name; nothing is told completely
                const size_t at = c.choose(4);
                const size_t room = s.kind == 2 ? 13 : 14;
                if (name.size() > room * std::max<size_t>(at, 1))
                {
                    auto v = send(s, name, at, false);
                    for (auto& p : v)
                        s.flight.push_back(p);
                    if (!v.empty())
                        s.cut = true;
                    continue;
                }
            }
            auto       v    = send(s, name, SIZE_MAX, true);
            if (faults && c.choose(4) == 3 && v.size() > 1)
            {
                if (c.choose(2) || s.cut)
                {
                    v.resize(1 + c.choose(uint32_t(v.size() - 1)));
                    s.cut = true;
                    c.fault("sender cut off");
                }
                else
                {
                    v.erase(v.begin(), v.begin() + 1 + c.choose(uint32_t(v.size() - 1)));
                    c.fault("begin of name lost");
                }
                for (auto& p : v)
                    s.flight.push_back(p);
            }
            else
            {
                s.cut = false;
                for (auto& p : v)
                    s.flight.push_back(p);
                s.expected.push_back(name);
                ++told;
            }
        }
        size_t budget = 0;
        for (auto& s : sources)
            budget += s.flight.size();
        if (more && c.choose(3))
            budget = c.choose(uint32_t(budget + 1));
        const size_t dense = budget > 60 ? budget / 30 : 1;
        size_t       cur   = 0;
        for (size_t k = 0; k < budget; ++k)
        {
            if (k % dense == 0)
            {
                cur = c.choose(uint32_t(sources.size()));
                if (p_other && c.pm(p_other))
                {
                    Packet o = gen_other_packet(c);
                    if ((o.data[0] >> 28) == 0xF) // another stream message
                        o.data[0] = (o.data[0] & 0xFC00FFFFu) | (c.pick({ 0u, 1u, 2u, 5u, 6u, 0x10u, 0x11u, 0x13u, 0x20u, 0x21u }) << 16);
                    if (midi::as_endpoint_name_view(o) || midi::as_product_instance_id_view(o) || midi::as_function_block_name_view(o))
                        c.fail("mistaken", "packet %s taken for a name", str(o).c_str());
                    c.probe("other packets in between");
                }
            }
            while (sources[cur].flight.empty())
                cur = (cur + 1) % sources.size();
            deliver(cur);
        }
    }
    for (auto& s : sources)
        if (!s.expected.empty())
            c.fail("lost", "name '%s' never arrived", s.expected.front().c_str());
    c.probe("names told", told);
    c.probe("switches between names", switches);
    if (told >= 2)
        c.nontrivial();
}
} // namespace

const Scenario& sim::scenario()
{
    static const Scenario s{ "C18",
                             "names of seeded contents and lengths sent concurrently, packets interleaved in seeded order with other messages, senders cut off; non-trivial: at least two names arrived; distinct by "
                             "hash of the complete event log",
                             run, 800000, false, "send_endpoint_name, send_product_instance_id, send_function_block_name and their views", "link, receiving application's reassembly",
                             "packets of one name stay in order; there are no sequence numbers, so a lost continue packet cannot be noticed and is not injected" };
    return s;
}
