// C11: All SysEx memory comes from the configured allocator and goes back to it
#include "coll.h"
#include <midi/capability_inquiry.h>
#if NIMIDI2_PMR_SYSEX_DATA
#include <memory_resource>
#endif
using namespace sim;

namespace {

//! the block behind a SysEx is a live block of the expected source, obtained with the size the vector knows
template<typename S>
void owned(Ctx& c, const char* what, const S& s, int source)
{
    c.check();
    if (s.data.capacity() == 0)
        return;
    int    from;
    size_t size;
    if (!mem::find(s.data.data(), from, size))
        c.fail("foreign", "%s: data of %zu bytes does not come from any memory source of the library", what, s.data.capacity());
    if (from != source)
        c.fail("source", "%s: data of %zu bytes obtained from source %d instead of %d", what, s.data.capacity(), from, source);
    if (size != s.data.capacity())
        c.fail("size", "%s: block of %zu bytes, capacity %zu", what, size, s.data.capacity());
}
void books(Ctx& c)
{
    if (auto* e = mem::error())
        c.fail("memory", "%s", e);
}

template<typename S>
struct Obj
{
    std::optional<S> s;
    Msg              m;
    int              source = 0;
};

template<int BITS>
struct World
{
    using Sysex = typename CollTraits<BITS>::sysex;
    Ctx&                    c;
    std::vector<Obj<Sysex>> pool{ 6 };
    uint64_t                ops = 0, explicit_builds = 0, kept = 0;
    uint32_t                p_fail;

    explicit World(Ctx& ctx) : c(ctx) { p_fail = c.pick({ 0u, 0u, 100u, 400u }); }

    template<typename F>
    bool attempt(F&& f)
    {
        if (p_fail && c.pm(p_fail))
            mem::fail_in(1 + c.choose(2));
        bool ok = true;
        try
        {
            mem::Lib lib;
            f();
        }
        catch (const std::bad_alloc&)
        {
            c.fault("allocation failure");
            ok = false;
        }
        mem::fail_in(0);
        return ok;
    }

    void drop(Obj<Sysex>& o)
    {
        mem::Lib lib;
        o.s.reset();
    }
    void keep(const Sysex& s) // an application keeping a copy of what it received
    {
        auto& o = pool[c.choose(6)];
        Msg   m = to_msg(s);
        if (!o.s)
            o.source = mem::sysex_source();
        if (attempt([&] { o.s = s; }))
            o.m = m;
        else
            drop(o);
        ++kept;
    }

    void build(Obj<Sysex>& o, SizeProfile sizes)
    {
        Msg m = gen_msg(c, BITS == 7 ? 0x7F : 0xFF, sizes);
        drop(o);
        const uint32_t how = c.choose(6);
        if (how == 5)
            m.data = { 3, 2, 1, 0, 0x7F };
        bool           ok  = false;
        o.source           = mem::sysex_source();
#if NIMIDI2_PMR_SYSEX_DATA
        if (c.choose(2))
        {
            auto*      mr     = static_cast<std::pmr::memory_resource*>(mem::explicit_mr());
            o.source          = mem::explicit_resource;
            const auto before = mem::allocs_of(mem::configured) + mem::allocs_of(mem::heap);
            // what it is built from lives elsewhere
            std::pmr::vector<uint8_t> from_default(m.data.begin(), m.data.end(), std::pmr::new_delete_resource());
            ok = attempt([&] {
                switch (how)
                {
                case 0: o.s.emplace(m.man, m.data.data(), m.data.size(), mr); break;
                case 1: o.s.emplace(m.man, m.data, mr); break;
                case 2: o.s.emplace(m.man, size_t(m.data.size()), mr); o.s->data.insert(o.s->data.end(), m.data.begin(), m.data.end()); break;
                case 3: o.s.emplace(m.man, std::move(from_default), mr); break;
                case 5: o.s.emplace(Sysex(m.man, { 3, 2, 1, 0, 0x7F }, mr)); break;
                default: o.s.emplace(m.man, mr); o.s->data.assign(m.data.begin(), m.data.end()); break;
                }
            });
            if (ok)
            {
                const auto after = mem::allocs_of(mem::configured) + mem::allocs_of(mem::heap);
                if (after != before)
                    c.fail("explicit", "building on an explicit memory resource (constructor %u) also took memory elsewhere", how);
                ++explicit_builds;
            }
        }
        else
#endif
            ok = attempt([&] {
                switch (how)
                {
                case 0: o.s.emplace(m.man, m.data.data(), m.data.size()); break;
                case 1: o.s.emplace(m.man, typename Sysex::data_type(m.data.begin(), m.data.end())); break;
                case 2: o.s.emplace(m.man, size_t(m.data.size())); o.s->data.insert(o.s->data.end(), m.data.begin(), m.data.end()); break;
                case 3: o.s.emplace(); o.s->manufacturerID = m.man; o.s->data.assign(m.data.begin(), m.data.end()); break;
                case 5: o.s.emplace(Sysex(m.man, { 3, 2, 1, 0, 0x7F })); break;
                default: o.s.emplace(m.man); o.s->data.assign(m.data.begin(), m.data.end()); break;
                }
            });
        if (ok)
            o.m = m;
        else
            drop(o);
    }

    void object_op(SizeProfile sizes)
    {
        ++ops;
        auto &o = pool[c.choose(6)], &q = pool[c.choose(6)];
        const uint32_t k = c.choose(BITS == 7 ? 8 : 7);
        c.ev("object", k);
        switch (k)
        {
        case 0: build(o, sizes); break;
        case 1: // copy construct
            if (q.s && &o != &q)
            {
                drop(o);
                if (attempt([&] { o.s.emplace(*q.s); }))
                {
                    o.m      = q.m;
                    o.source = mem::sysex_source();
                }
                else
                    drop(o);
            }
            break;
        case 2: // copy assign
            if (q.s && o.s && &o != &q)
            {
                if (attempt([&] { *o.s = *q.s; }))
                    o.m = q.m;
                else
                    drop(o);
            }
            break;
        case 3: // move construct
            if (q.s && &o != &q)
            {
                drop(o);
                mem::Lib lib;
                o.s.emplace(std::move(*q.s));
                o.m      = q.m;
                o.source = q.source;
                q.s.reset();
            }
            break;
        case 4: // move assign: keeps the resource of the target if they differ
            if (q.s && o.s && &o != &q)
            {
                if (attempt([&] { *o.s = std::move(*q.s); }))
                    o.m = q.m;
                else
                    drop(o);
                drop(q);
            }
            break;
        case 5:
            if (o.s)
            {
                mem::Lib lib;
                o.s->clear();
                o.m = {};
            }
            break;
        case 6: drop(o); break;
        default:
            if constexpr (BITS == 7)
            {
                drop(o);
                o.source = mem::sysex_source();
                std::vector<uint8_t> d = gen_content(c, 1 + c.choose(3000), 0x7F);
                if (attempt([&] { o.s.emplace(midi::ci::make_profile_specific_data_message(1, 2, { 1, 2, 3, 4, 5 }, d, 2)); }))
                    o.m = to_msg(*o.s);
                else
                    drop(o);
            }
        }
        audit();
    }
    void audit()
    {
        uint64_t sig = 0;
        for (auto& o : pool)
            sig = mix64(sig ^ (o.s ? uint64_t(o.s->data.capacity()) * 4 + unsigned(o.source) + 1 : 0));
        c.state(sig);
        for (auto& o : pool)
            if (o.s)
            {
                owned(c, "object", *o.s, o.source);
                if (!(to_msg(*o.s) == o.m))
                    c.fail("content", "object holds %s instead of %s", str(to_msg(*o.s)).c_str(), str(o.m).c_str());
            }
        books(c);
    }
};

template<int BITS>
void world(Ctx& c)
{
    using Sysex = typename CollTraits<BITS>::sysex;
    uint64_t delivered = 0, failures = 0;
    bool     nontrivial;
    {
        World<BITS> w(c);
        SizeProfile sizes;
        sizes.large = c.choose(3) == 0 ? 2 : 0;
        PacketLink link;
        if (c.choose(3) == 2)
            link.draw_rates(c);
        const uint32_t p_throw = c.pick({ 0u, 0u, 200u });

        std::unique_ptr<typename CollTraits<BITS>::collector> coll;
        std::unique_ptr<midi::midi1_byte_stream_parser>       parser;
        auto on = [&](const Sysex& s) {
            mem::App app;
            ++delivered;
            owned(c, "received message", s, mem::sysex_source());
            books(c);
            c.ev("sysex", hash(to_msg(s)));
            if (c.choose(2))
                w.keep(s);
            if (p_throw && c.pm(p_throw))
            {
                c.fault("callback throws");
                throw AppError{};
            }
        };
        auto fresh = [&] {
            mem::Lib lib;
            if constexpr (BITS == 7)
            {
                coll.reset(new midi::sysex7_collector([&](const midi::sysex7& s) { on(s); }));
                parser.reset(new midi::midi1_byte_stream_parser([](midi::universal_packet) {}, [&](const midi::sysex7& s) { on(s); }));
            }
            else
                coll.reset(new midi::sysex8_collector([&](const midi::sysex8& s, uint8_t) { on(s); }));
        };
        fresh();
        auto guarded = [&](auto&& f) {
            if (w.p_fail && c.pm(w.p_fail / 4))
                mem::fail_in(1 + c.choose(2));
            try
            {
                mem::Lib lib;
                f();
            }
            catch (const AppError&)
            {
            }
            catch (const std::bad_alloc&)
            {
                c.fault("allocation failure");
                ++failures;
            }
            mem::in_lib = false;
            mem::fail_in(0);
        };

        uint32_t big = 0;
        Ops      ops(c, c.pick({ 10u, 30u }), 120);
        while (ops.next())
        {
            if (big > 6)
                sizes.large = 0;
            switch (c.weighted({ 6, 6, BITS == 7 ? 4u : 0u, 1, 1, 1 }))
            {
            case 0: w.object_op(sizes); break;
            case 1: // packets
            {
                auto& o = w.pool[c.choose(6)];
                std::vector<Packet> v;
                {
                    const Msg m = o.s && o.m.man ? o.m : gen_msg(c, BITS == 7 ? 0x7F : 0xFF, sizes);
                    if (m.data.size() > 500)
                        ++big;
                    v = packetise<BITS>(c, m, 1, 2, false);
                }
                for (auto& p : link.carry<BITS>(c, v))
                    if (v.size() > 40)
                    {
                        try
                        {
                            mem::Lib lib;
                            coll->feed(p);
                        }
                        catch (const AppError&)
                        {
                        }
                        mem::in_lib = false;
                    }
                    else
                        guarded([&] { coll->feed(p); });
                break;
            }
            case 2: // bytes
                if (parser)
                {
                    const Msg m = gen_msg(c, 0x7F, sizes);
                    Bytes     b{ 0xF0 };
                    for (auto x : man_bytes7(m.man))
                        b.push_back(x);
                    b.insert(b.end(), m.data.begin(), m.data.end());
                    if (c.choose(4))
                        b.push_back(0xF7);
                    else
                        c.fault("message cut off");
                    guarded([&] { parser->feed(b.data(), b.size()); });
                }
                break;
            case 3:
            {
                const size_t l = c.pick({ 0u, 20u, 128u, 1000u, 20000u, 40000u });
                guarded([&] { coll->set_max_sysex_data_size(l); });
                break;
            }
            case 4:
                c.fault("reset");
                guarded([&] {
                    coll->reset();
                    if (parser)
                        parser->reset();
                });
                break;
            default: // device unplugged and plugged in again
                c.fault("receiver destroyed and recreated");
                fresh();
            }
            w.audit();
            c.advance(1000000);
        }
        w.audit();
        nontrivial = w.ops > 2 && delivered > 2;
        c.probe("objects built on an explicit resource", w.explicit_builds);
        c.probe("received messages kept", w.kept);
        c.probe("messages received", delivered);
        mem::Lib lib;
        coll.reset();
        parser.reset();
        for (auto& o : w.pool)
            o.s.reset();
    }
    books(c);
    if (mem::outstanding())
        c.fail("leak", "%llu blocks (%llu bytes) outstanding after all objects are gone", (unsigned long long)mem::outstanding(),
               (unsigned long long)mem::outstanding_bytes());
    if (nontrivial)
        c.nontrivial();
}

void run(Ctx& c)
{
    if (c.choose(3) == 2)
        world<8>(c);
    else
        world<7>(c);
}
} // namespace

const Scenario& sim::scenario()
{
    static const Scenario s{ "C11",
                             "collectors, parser and a pool of SysEx objects built, copied, moved, cleared, received and kept, with faults (allocation, callback, link, unplug); "
                             "non-trivial: several object operations and several received messages; distinct by hash of the complete event log",
                             run, 80000, false, "sysex7, sysex8, sysex7_collector, sysex8_collector, midi1_byte_stream_parser, MIDI-CI factory", "all three memory sources, links, application",
                             "explicit memory resources exist in the pmr configuration only" };
    return s;
}
