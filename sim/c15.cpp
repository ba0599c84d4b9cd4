// C15: Checked MIDI-CI and SysEx views are safe on anything a link delivers
#include "ci.h"
using namespace sim;

namespace {

struct Inspect
{
    Ctx&          c;
    const sysex7& s;
    uint64_t      yes = 0;

    void inside(const char* view, const char* what, const uint8_t* p, size_t n)
    {
        c.check();
        const uint8_t *b = s.data.data(), *e = b + s.data.size();
        if (p < b || p > e || n > size_t(e - p))
            c.fail("outside", "%s: %s of %zu bytes at offset %lld lies outside the message of %zu bytes", view, what, n, (long long)(p - b), s.data.size());
        volatile uint8_t sink = 0;
        for (size_t i = 0; i < n; ++i)
            sink = sink ^ p[i];
    }
    uint64_t sum = 0; // keeps accessors alive
    void     use(uint64_t v) { sum = sum * 31 + v; }
    void     use(const midi::device_identity& i) { use(i.manufacturer), use(i.family), use(i.model), use(i.revision); }
    void     use(const ci::profile_id& p) { use(p.byte1), use(p.byte2), use(p.byte3), use(p.byte4), use(p.byte5); }

    void base(const midi::capability_inquiry_view& v) { use(v.source_muid()), use(v.destination_muid()), use(v.message_version()), use(v.device_id()), use(v.type()), use(v.subtype()); }

    void acc(const ci::discovery::message_view& v, const char*)
    {
        use(v.identity()), use(v.categories()), use(v.maximum_message_size()), use(v.output_path_id());
    }
    void acc(const ci::discovery_reply_view& v, const char* n)
    {
        acc(static_cast<const ci::discovery::message_view&>(v), n);
        use(v.function_block());
    }
    void acc(const ci::endpoint_information_inquiry_view& v, const char*) { use(v.status()); }
    void acc(const ci::endpoint_information_reply_view& v, const char* n)
    {
        use(v.status());
        inside(n, "information data", v.information_data(), v.information_data_length());
    }
    void acc(const ci::nack::view& v, const char* n)
    {
        use(v.transaction()), use(v.status_code()), use(v.status_data());
        inside(n, "details", v.details(), 5);
        inside(n, "message data", v.message_data(), v.message_length());
        const auto t = v.message();
        inside(n, "message", reinterpret_cast<const uint8_t*>(t.data()), t.size());
    }
    void acc(const ci::invalidate_muid_view& v, const char*) { use(v.target_muid()); }
    void acc(const ci::profile_inquiry_view&, const char*) {}
    void acc(const ci::profile_inquiry_reply_view& v, const char* n)
    {
        const size_t e = v.num_enabled_profiles(), d = v.num_disabled_profiles();
        if (16 + 5 * (e + d) > s.data.size())
            c.fail("outside", "%s: %zu + %zu profiles announced in a message of %zu bytes", n, e, d, s.data.size());
        use(v.has_enabled_profiles()), use(v.has_disabled_profiles());
        const auto ve = v.enabled_profiles(), vd = v.disabled_profiles();
        if (ve.size() != e || vd.size() != d)
            c.fail("count", "%s: %zu + %zu profiles listed, %zu + %zu announced", n, ve.size(), vd.size(), e, d);
        for (auto& p : ve)
            use(p);
        for (auto& p : vd)
            use(p);
    }
    void acc(const ci::profile_id_view& v, const char*) { use(v.profile()); }
    void acc(const ci::profile_destination_view& v, const char*) { use(v.profile()), use(v.num_channels()), use(v.params().scope), use(v.params().num_channels); }
    void acc(const ci::profile_details_inquiry_view& v, const char*) { use(v.profile()), use(v.target()); }
    void acc(const ci::profile_details_reply_view& v, const char* n)
    {
        use(v.profile()), use(v.target());
        inside(n, "target data", v.target_data(), v.target_data_length());
    }
    void acc(const ci::profile_specific_data_view& v, const char* n)
    {
        use(v.profile());
        if (v.data_end() < v.data_begin() || size_t(v.data_end() - v.data_begin()) != v.data_size())
            c.fail("count", "%s: data range and data size differ", n);
        inside(n, "data", v.data_begin(), v.data_size());
    }
    void acc(const ci::property_exchange_capabilities_view& v, const char*) { use(v.maximum_number_of_requests()), use(v.pe_version_major()), use(v.pe_version_minor()); }
    void acc(const pe::property_data_message_view& v, const char* n)
    {
        use(v.request_id()), use(v.number_of_chunks()), use(v.number_of_this_chunk());
        inside(n, "header", v.header_begin(), v.header_size());
        inside(n, "chunk", v.chunk_begin(), v.chunk_size());
        if (v.header_end() != v.header_begin() + v.header_size() || v.chunk_end() != v.chunk_begin() + v.chunk_size())
            c.fail("count", "%s: range and size differ", n);
        inside(n, "header end", v.header_end(), 0);
        inside(n, "chunk end", v.chunk_end(), 0);
        if (v.chunk_begin() < v.header_end())
            c.fail("count", "%s: chunk overlaps header", n);
        const unsigned num = v.number_of_chunks(), cur = v.number_of_this_chunk();
        if ((num && cur > num) || (v.header_size() && cur > 1) || (v.chunk_size() && cur < 1))
            c.fail("chunks", "%s: chunk %u of %u with %zu bytes of header and %zu bytes of data accepted", n, cur, num, size_t(v.header_size()), size_t(v.chunk_size()));
    }
    void acc(const ci::process_inquiry_capabilities_reply_view& v, const char*) { use(v.supported_features()); }
    void acc(const ci::midi_message_report_inquiry_view& v, const char*)
    {
        use(v.message_data_control()), use(v.system_message_types()), use(v.channel_controller_message_types()), use(v.note_data_message_types());
    }
    void acc(const ci::midi_message_report_reply_view& v, const char*) { use(v.system_message_types()), use(v.channel_controller_message_types()), use(v.note_data_message_types()); }

    void all()
    {
        const auto&  d  = s.data;
        const bool   nr = s.manufacturerID == 0x7E0000u, univ = (nr || s.manufacturerID == 0x7F0000u) && d.size() >= 2;
        for_each_view([&](auto tag, const char* name, std::initializer_list<uint8_t> subtypes) {
            using V = typename decltype(tag)::type;
            c.check();
            const bool ok = V::validate(s);
            const auto v  = ci::as<V>(s);
            if (ok != v.has_value())
                c.fail("disagree", "%s: validate and as disagree", name);
            if (!ok)
                return;
            ++yes;
            bool member = false;
            if (d.size() > 2)
                for (auto x : subtypes)
                    member = member || x == d[2];
            if (!nr || d.size() < 3 || d[1] != 0x0D || !member)
                c.fail("type", "%s accepts a message of manufacturer %06x and %zu bytes: %s", name, unsigned(s.manufacturerID), d.size(), hex(d.data(), d.size()).c_str());
            acc(*v, name);
            if (midi::is_capability_inquiry_message(s))
                base(*v);
            else
                c.fail("type", "%s accepts what is no MIDI-CI message", name);
            const auto w = midi::universal_sysex::message_view::make_optional<V>(s);
            if (!w)
                c.fail("disagree", "%s: make_optional says no", name);
            acc(*w, name);
        });
        // a view as another one
        if (const auto v = midi::as_universal_sysex_view(s))
            for_each_view([&](auto tag, const char* name, std::initializer_list<uint8_t>) {
                using V = typename decltype(tag)::type;
                if (const auto w = v->template as<V>(); w.has_value() != V::validate(s))
                    c.fail("disagree", "%s: as of the universal SysEx view says %d", name, w.has_value());
                else if (w)
                    acc(*w, name);
            });
        // read as a message
        {
            us::message m(s.manufacturerID);
            m.data = s.data;
            m.data.shrink_to_fit();
            const unsigned t = m.type(), sub = m.subtype(), dev = m.device_id();
            if (nr || s.manufacturerID == 0x7F0000u)
                if ((d.size() > 2 && sub != d[2]) || (d.size() < 3 && sub != 0) || (d.size() > 1 && t != ((s.manufacturerID >> 8) | d[1])) || (d.size() < 2 && t != 0) ||
                    (d.size() ? dev != d[0] : dev < 0x80))
                    c.fail("type", "universal SysEx message %s read as type %04x, subtype %02x, device %02x", hex(d.data(), d.size()).c_str(), t, sub, dev);
        }
        c.check();
        const bool is_ci = midi::is_capability_inquiry_message(s);
        if (is_ci && (!nr || d.size() < 12 || d[1] != 0x0D))
            c.fail("type", "accepted as MIDI-CI message: manufacturer %06x, %s", unsigned(s.manufacturerID), hex(d.data(), d.size()).c_str());
        if (auto v = midi::as_capability_inquiry_view(s))
        {
            if (!is_ci)
                c.fail("disagree", "as_capability_inquiry_view");
            base(*v);
        }
        const bool is_us = midi::is_universal_sysex_message(s);
        if (is_us && !univ)
            c.fail("type", "accepted as universal SysEx: manufacturer %06x, %zu bytes", unsigned(s.manufacturerID), d.size());
        const auto u = midi::as_universal_sysex_view(s);
        if (u.has_value() != is_us)
            c.fail("disagree", "universal SysEx view");
        const unsigned t = midi::universal_sysex_type_of(s), sub = midi::universal_sysex_subtype_of(s), dev = midi::universal_sysex_device_id_of(s);
        if (is_us)
        {
            // what is told of such a message are bytes of it
            const unsigned cat = (nr ? 0x7E00u : 0x7F00u) | d[1], third = d.size() > 2 ? d[2] : 0u;
            if (t != cat || sub != third || dev != d[0] || u->type() != cat || u->subtype() != third || u->device_id() != d[0] || u->data_size() != d.size())
                c.fail("type", "universal SysEx %02x %s read as type %04x/%04x, subtype %02x/%02x, device %02x/%02x", nr ? 0x7E : 0x7F, hex(d.data(), d.size()).c_str(), t, u->type(), sub, u->subtype(), dev,
                       u->device_id());
        }
        else if (!univ && (t != 0 || sub != 0 || dev < 0x80))
            c.fail("type", "what is no universal SysEx has type %04x, subtype %02x, device %02x", t, sub, dev);
        const bool rq = us::is_identity_request(s), rp = us::is_identity_reply(s);
        if ((rq || rp) && (!nr || d.size() < 3 || d[1] != 6 || d[2] != (rq ? 1 : 2)))
            c.fail("type", "accepted as identity message: manufacturer %06x, %s", unsigned(s.manufacturerID), hex(d.data(), d.size()).c_str());
        if (rp != us::as_identity_reply_view(s).has_value())
            c.fail("disagree", "identity reply view");
        if (auto v = us::as_identity_reply_view(s))
        {
            if (!rp)
                c.fail("disagree", "identity reply view");
            use(v->identity());
            ++yes;
        }
    }
};

void inspect(Ctx& c, const Msg& m, uint64_t& yes)
{
    // a copy without spare capacity: every access beyond the end is caught
    sysex7 s(m.man);
    s.data = typename sysex7::data_type(m.data.begin(), m.data.end());
    s.data.shrink_to_fit();
    Inspect i{ c, s };
    i.all();
    yes += i.yes;
    c.ev("inspect", i.yes, m.data.size(), hash(m));
    c.state((uint64_t(m.data.size() > 2 ? m.data[2] : 0) << 32) ^ (uint64_t(std::min<size_t>(m.data.size(), 600)) << 8) ^ i.yes);
}

//! storage faults of a message: what a broken sender or transport makes of it
Msg damage(Ctx& c, Msg m, const Msg& other)
{
    for (uint32_t n = c.choose(4); n; --n)
    {
        const size_t z = m.data.size();
        switch (c.choose(9))
        {
        case 0:
            m.data.resize(c.choose(uint32_t(z + 1)));
            c.fault("message truncated");
            break;
        case 1: // a few bytes missing at the end
            m.data.resize(z - std::min<size_t>(z, 1 + c.choose(8)));
            c.fault("message truncated");
            break;
        case 2:
            if (z)
                m.data[c.choose(uint32_t(z))] = uint8_t(c.choose(c.choose(4) ? 128 : 256));
            c.fault("byte corrupted");
            break;
        case 3: // in the header or the length fields
            if (z)
                m.data[c.choose(uint32_t(std::min<size_t>(z, 24)))] = c.pick({ uint8_t(0), uint8_t(1), uint8_t(2), uint8_t(0x7F), uint8_t(0x0D), uint8_t(6), uint8_t(0xFF) });
            c.fault("length or header corrupted");
            break;
        case 4: // another type's body
            if (z > 2)
                m.data[2] = uint8_t(c.choose(2) ? c.choose(128) : 0x20 + c.choose(0x26));
            c.fault("subtype corrupted");
            break;
        case 5: // splice
        {
            const size_t a = c.choose(uint32_t(z + 1)), b = c.choose(uint32_t(other.data.size() + 1));
            m.data.resize(a);
            m.data.insert(m.data.end(), other.data.begin() + long(b), other.data.end());
            c.fault("messages spliced");
            break;
        }
        case 6: // bytes inserted or lost
            if (z && c.choose(2))
            {
                const size_t a = c.choose(uint32_t(z));
                m.data.erase(m.data.begin() + long(a), m.data.begin() + long(std::min(z, a + 1 + c.choose(6))));
                c.fault("bytes lost");
            }
            else
            {
                const size_t a = c.choose(uint32_t(z + 1));
                m.data.insert(m.data.begin() + long(a), 1 + c.choose(6), uint8_t(c.choose(128)));
                c.fault("bytes inserted");
            }
            break;
        case 7:
            m.man = c.pick({ 0x7E0000u, 0x7F0000u, 0x7D0000u, 0u, 0x00007Eu, 0x010000u });
            c.fault("manufacturer corrupted");
            break;
        default:
            m.data = gen_content(c, c.choose(40), 0x7F);
            if (m.data.size() > 2 && c.choose(3))
            {
                m.data[1] = 0x0D;
                m.data[2] = uint8_t(c.choose(128));
            }
            c.fault("message replaced by noise");
            break;
        }
    }
    return m;
}

void run(Ctx& c)
{
    uint64_t   yes = 0, no = 0, seen = 0;
    const bool big = c.choose(10) == 9;
    const CiTopic topic(c);
    Msg        last{ 0x7E0000, { 0x7F, 0x0D, 0x70 } };
    auto       look = [&](const Msg& m) {
        const auto y = yes;
        inspect(c, m, yes);
        ++seen;
        if (yes == y)
            ++no;
    };
    if (c.choose(2))
    {
        // damaged messages handed to the application
        Ops ops(c, c.pick({ 10u, 40u }), 150);
        while (ops.next())
        {
            const Msg m = to_msg(topic.next(c, big).m);
            look(damage(c, m, last));
            last = m;
            c.advance(1000000);
        }
    }
    else
    {
        // whatever comes out of a faulty link; the collector decides what a message is
        PacketLink link;
        link.draw_rates(c);
        midi::sysex7_collector coll([&](const sysex7& s) { look(to_msg(s)); });
        Ops                    ops(c, c.pick({ 10u, 40u }), 150);
        while (ops.next())
        {
            const Msg m = to_msg(topic.next(c, big).m);
            for (auto& p : link.carry<7>(c, packetise<7>(c, c.choose(3) ? m : damage(c, m, last), 0, 0, false)))
            {
                if (c.choose(400) == 399) // the eighth bit of a payload byte
                {
                    Packet q = p;
                    set_ump_byte(q, 2 + c.choose(6), 0x80 | uint8_t(c.choose(128)));
                    c.fault("8 bit payload");
                    coll.feed(q);
                }
                else
                    coll.feed(p);
            }
            last = m;
            c.advance(1000000);
        }
    }
    c.probe("views available", yes);
    c.probe("messages no view accepts", no);
    c.probe("messages inspected", seen);
    if (yes && no)
        c.nontrivial();
}
} // namespace

const Scenario& sim::scenario()
{
    static const Scenario s{ "C15",
                             "every kind of MIDI-CI / universal SysEx message damaged in seeded ways or sent over a faulty packet link; all views asked and all accessors of available views called; "
                             "non-trivial: some views available and some refused in the run; distinct by hash of the complete event log",
                             run, 120000, false, "all views and validate functions of capability_inquiry.h and universal_sysex.h, factories, sysex7_collector, send_sysex7",
                             "link, damage", "accesses outside the message are caught by AddressSanitizer and container assertions in the default configuration, by range comparison in all" };
    return s;
}
