// C21: UMP endpoint discovery: a client ends up with exactly the endpoint's description
#include "world.h"
#include <map>
#include <midi/stream_message.h>
using namespace sim;

namespace {

struct Identity
{
    uint32_t man = 0, family = 0, model = 0, revision = 0;
    bool     operator==(const Identity& o) const { return man == o.man && family == o.family && model == o.model && revision == o.revision; }
};
struct Info
{
    uint8_t major = 1, minor = 1, blocks = 0, protocols = 1, extensions = 0;
    bool    fixed = false;
    bool    operator==(const Info& o) const
    {
        return major == o.major && minor == o.minor && blocks == o.blocks && protocols == o.protocols && extensions == o.extensions && fixed == o.fixed;
    }
};
struct Block
{
    bool    active = true;
    uint8_t direction = 3, midi1 = 0, hint = 3, first = 0, groups = 1, ci = 0, streams = 0;
    bool    operator==(const Block& o) const
    {
        return active == o.active && direction == o.direction && midi1 == o.midi1 && hint == o.hint && first == o.first && groups == o.groups && ci == o.ci && streams == o.streams;
    }
};
struct Description
{
    Info                     info;
    Identity                 id;
    std::string              name, product;
    uint8_t                  protocol = 1, jr = 0;
    std::vector<Block>       blocks;
    std::vector<std::string> names;
};

std::string gen_text(Ctx& c, uint32_t size)
{
    std::string    s;
    const uint32_t salt = c.choose(1u << 16);
    for (uint32_t i = 0; i < size; ++i)
        s += char(' ' + mix64((uint64_t(salt) << 20) + i) % 95);
    return s;
}
uint32_t gen_name_size(Ctx& c) { return c.choose(3) ? c.choose(46) : c.pick({ 13u, 14u, 26u, 28u, 0u, 27u, 98u, 91u }); }

//! a message of the conversation: what it says; its packets must say the same
struct Said
{
    enum Kind
    {
        discovery,
        info,
        identity,
        name,
        product,
        config_request,
        config_notify,
        block_discovery,
        block_info,
        block_name
    } kind = discovery;
    uint8_t     a = 0, b = 0, filter = 0; // version / block / protocol, extensions
    Info        i;
    Identity    id;
    Block       fb;
    std::string text;
};
//! one packet on its way
struct Flying
{
    Packet                p;
    std::shared_ptr<Said> said;
    size_t                index = 0, count = 1;
};
using Letter = std::vector<Flying>;

const char* kind_name(int k)
{
    static const char* const n[] = { "endpoint discovery", "endpoint info", "device identity", "endpoint name", "product instance id", "stream configuration request", "stream configuration notification",
                                     "function block discovery", "function block info", "function block name" };
    return n[k];
}

//! UMP 1.1 encoding, written from the specification
void reference(const Said& s, size_t index, size_t count, uint8_t (&b)[16])
{
    static const uint8_t status[] = { 0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x10, 0x11, 0x12 };
    std::fill(b, b + 16, 0);
    const unsigned form = count == 1 ? 0 : index == 0 ? 1 : index + 1 == count ? 3 : 2;
    b[0]                = uint8_t(0xF0 | (form << 2));
    b[1]                = status[s.kind];
    auto seven          = [&](unsigned at, uint32_t v, unsigned n) {
        for (unsigned k = 0; k < n; ++k)
            b[at + k] = uint8_t((v >> (7 * k)) & 0x7F);
    };
    auto text = [&](unsigned at) {
        const size_t room = 16 - at;
        for (size_t k = 0; k < room && index * room + k < s.text.size(); ++k)
            b[at + k] = uint8_t(s.text[index * room + k]);
    };
    switch (s.kind)
    {
    case Said::discovery:
        b[2] = s.a;
        b[3] = s.b;
        b[7] = s.filter;
        break;
    case Said::info:
        b[2] = s.i.major;
        b[3] = s.i.minor;
        b[4] = uint8_t((s.i.fixed ? 0x80 : 0) | s.i.blocks);
        b[6] = s.i.protocols;
        b[7] = s.i.extensions;
        break;
    case Said::identity:
        b[5] = uint8_t(s.id.man >> 16);
        b[6] = uint8_t(s.id.man >> 8);
        b[7] = uint8_t(s.id.man);
        seven(8, s.id.family, 2);
        seven(10, s.id.model, 2);
        seven(12, s.id.revision, 4);
        break;
    case Said::name:
    case Said::product: text(2); break;
    case Said::config_request:
    case Said::config_notify:
        b[2] = s.a;
        b[3] = s.b;
        break;
    case Said::block_discovery:
        b[2] = s.a;
        b[3] = s.filter;
        break;
    case Said::block_info:
        b[2] = uint8_t((s.fb.active ? 0x80 : 0) | s.a);
        b[3] = uint8_t((s.fb.hint << 4) | (s.fb.midi1 << 2) | s.fb.direction);
        b[4] = s.fb.first;
        b[5] = s.fb.groups;
        b[6] = s.fb.ci;
        b[7] = s.fb.streams;
        break;
    case Said::block_name:
        b[2] = s.a;
        text(3);
        break;
    }
}

//! puts what was said into packets, as the library does it
Letter put(Ctx& c, const Said& what, bool short_form = false)
{
    auto                said = std::make_shared<Said>(what);
    std::vector<Packet> v;
    auto                out = [&](const midi::universal_packet& p) { v.push_back(p); };
    const bool brief = c.choose(3) == 2; // what has a default is left out, names are packed by hand
    auto       parts = [&](size_t room, auto make) {
        const size_t n = what.text.size() <= room ? 1 : (what.text.size() + room - 1) / room;
        for (size_t k = 0; k < n; ++k)
        {
            // the part exactly, so that reads beyond it are caught
            const auto              part = what.text.substr(k * room, room);
            std::unique_ptr<char[]> exact(new char[part.size() ? part.size() : 1]);
            std::copy(part.begin(), part.end(), exact.get());
            const std::string_view x(exact.get(), part.size());
            v.push_back(make(n == 1 ? midi::packet_format::complete : k == 0 ? midi::packet_format::start : k + 1 == n ? midi::packet_format::end : midi::packet_format::cont, x));
        }
    };
    using O = midi::function_block_options;
    switch (what.kind)
    {
    case Said::discovery:
        if (brief && what.a == 1 && what.b == 1)
            v.push_back(midi::make_endpoint_discovery_message(what.filter));
        else if (brief && what.b == 1)
            v.push_back(midi::make_endpoint_discovery_message(what.filter, what.a));
        else
            v.push_back(midi::make_endpoint_discovery_message(what.filter, what.a, what.b));
        break;
    case Said::info:
        if (brief && what.i.major == 1 && what.i.minor == 1)
            v.push_back(midi::make_endpoint_info_message(what.i.blocks, what.i.fixed, what.i.protocols, what.i.extensions));
        else if (brief && what.i.minor == 1)
            v.push_back(midi::make_endpoint_info_message(what.i.blocks, what.i.fixed, what.i.protocols, what.i.extensions, what.i.major));
        else
            v.push_back(midi::make_endpoint_info_message(what.i.blocks, what.i.fixed, what.i.protocols, what.i.extensions, what.i.major, what.i.minor));
        break;
    case Said::identity: v.push_back(midi::make_device_identity_message({ what.id.man, midi::uint14_t(what.id.family), midi::uint14_t(what.id.model), what.id.revision })); break;
    case Said::name:
        if (brief)
            parts(14, [](midi::packet_format f, std::string_view t) { return midi::make_endpoint_name_message(f, t); });
        else
            midi::send_endpoint_name(what.text, out);
        break;
    case Said::product:
        if (brief)
            parts(14, [](midi::packet_format f, std::string_view t) { return midi::make_product_instance_id_message(f, t); });
        else
            midi::send_product_instance_id(what.text, out);
        break;
    case Said::config_request: v.push_back(brief && !what.b ? midi::make_stream_configuration_request(what.a) : midi::make_stream_configuration_request(what.a, what.b)); break;
    case Said::config_notify: v.push_back(brief && !what.b ? midi::make_stream_configuration_notification(what.a) : midi::make_stream_configuration_notification(what.a, what.b)); break;
    case Said::block_discovery: v.push_back(midi::make_function_block_discovery_message(what.a, what.filter)); break;
    case Said::block_info:
        if (short_form)
        {
            if (brief && what.fb.groups == 1)
                v.push_back(midi::make_function_block_info_message(what.a, what.fb.direction, what.fb.first));
            else
                v.push_back(midi::make_function_block_info_message(what.a, what.fb.direction, what.fb.first, what.fb.groups));
        }
        else
        {
            static constexpr uint8_t direction[] = { 0, O::direction_input, O::direction_output, O::bidirectional };
            static constexpr uint8_t midi1[]     = { O::not_midi1, O::midi1_unrestricted, O::midi1_31250, 3 };
            static constexpr uint8_t hint[]      = { O::ui_hint_as_direction, O::ui_hint_receiver, O::ui_hint_sender, 3 };
            O                        o;
            if (!brief || !what.fb.active)
                o.active = what.fb.active;
            if (!brief || what.fb.direction != 3)
                o.direction = direction[what.fb.direction];
            if (!brief || what.fb.midi1)
                o.midi1 = midi1[what.fb.midi1];
            const bool as_direction = what.fb.hint == what.fb.direction && what.a % 2;
            if (!brief || !as_direction)
                o.ui_hint = hint[as_direction ? 0 : what.fb.hint];
            if (!brief || what.fb.ci)
                o.ci_message_version = what.fb.ci;
            if (!brief || what.fb.streams)
                o.max_num_sysex8_streams = what.fb.streams;
            if (brief && what.fb.groups == 1)
                v.push_back(midi::make_function_block_info_message(what.a, o, what.fb.first));
            else
                v.push_back(midi::make_function_block_info_message(what.a, o, what.fb.first, what.fb.groups));
        }
        break;
    case Said::block_name:
        if (brief)
            parts(13, [&](midi::packet_format f, std::string_view t) { return midi::make_function_block_name_message(f, what.a, t); });
        else
            midi::send_function_block_name(what.a, what.text, out);
        break;
    }
    Letter r;
    for (size_t k = 0; k < v.size(); ++k)
    {
        uint8_t b[16];
        reference(*said, k, v.size(), b);
        c.check();
        for (unsigned n = 0; n < 16; ++n)
            if (ump_byte(v[k], n) != b[n])
                c.fail("encoding", "%s, packet %zu of %zu: byte %u is %02x instead of %02x (%08x %08x %08x %08x)", kind_name(what.kind), k, v.size(), n, ump_byte(v[k], n), b[n], v[k].data[0],
                       v[k].data[1], v[k].data[2], v[k].data[3]);
        if (c.choose(8) == 7)
        {
            // formats read and set through the message itself
            const auto f = midi::packet_format((b[0] >> 2) & 3), g = midi::packet_format(c.choose(4));
            midi::stream_message m(midi::status_t(b[1]), g);
            for (unsigned n = 2; n < 16; ++n)
                m.set_byte(n, b[n]);
            if (m.format() != g)
                c.fail("field", "format %d of a stream message read as %d", int(g), int(m.format()));
            m.set_format(f);
            if (m.format() != f || Packet(m).data[0] != v[k].data[0] || Packet(m).data[1] != v[k].data[1] || Packet(m).data[2] != v[k].data[2] || Packet(m).data[3] != v[k].data[3])
                c.fail("encoding", "%s built by hand differs: %s", kind_name(what.kind), str(Packet(m)).c_str());
        }
        r.push_back({ v[k], said, k, v.size() });
    }
    c.ev("say", what.kind, what.a, v.size());
    return r;
}

//! one direction: letters may overtake each other, but the packets of one kind (and block) stay in order
struct Wire
{
    struct Lane
    {
        std::deque<Flying> q;
    };
    std::map<uint32_t, Lane> lanes;
    bool                     down = false;
    void put(const Letter& l)
    {
        for (auto& f : l)
            lanes[(uint32_t(f.said->kind) << 8) | (f.said->kind == Said::block_name ? f.said->a : 0)].q.push_back(f);
    }
    size_t size() const
    {
        size_t n = 0;
        for (auto& l : lanes)
            n += l.second.q.size();
        return n;
    }
    void clear() { lanes.clear(); }
    //! any lane's next packet
    bool take(Ctx& c, Flying& f)
    {
        std::vector<uint32_t> ready;
        for (auto& l : lanes)
            if (!l.second.q.empty())
                ready.push_back(l.first);
        if (ready.empty())
            return false;
        auto& l = lanes[ready[c.choose(uint32_t(ready.size()))]];
        f       = l.q.front();
        l.q.pop_front();
        return true;
    }
};

//! reads a packet through the library's views, checks that they say what was said, and that only one view fits
Said hear(Ctx& c, const Flying& f)
{
    const Packet&      p = f.p;
    const Said&        w = *f.said;
    std::vector<int>   kinds;
    Said               s;
    midi::packet_format form{};
    bool               multi = false;
    c.check();
    if (!midi::is_stream_message(p))
        c.fail("kind", "packet %s is no stream message", str(p).c_str());
    if (auto v = midi::as_endpoint_discovery_view(p))
    {
        kinds.push_back(Said::discovery);
        s.a      = v->ump_version_major();
        s.b      = v->ump_version_minor();
        s.filter = v->filter();
        if (v->ump_version() != ((uint32_t(w.a) << 8) | w.b))
            c.fail("field", "UMP version read as %x", v->ump_version());
        if (w.kind == Said::discovery)
        {
            const bool r[] = { v->requests_info(), v->requests_device_identity(), v->requests_name(), v->requests_product_instance_id(), v->requests_stream_configuration() };
            for (unsigned k = 0; k < 5; ++k)
                if (r[k] != ((w.filter >> k) & 1))
                    c.fail("filter", "endpoint discovery with filter %02x: item %u %s", w.filter, k, r[k] ? "requested" : "not requested");
        }
    }
    if (auto v = midi::as_endpoint_info_view(p))
    {
        kinds.push_back(Said::info);
        s.i.major      = v->ump_version_major();
        s.i.minor      = v->ump_version_minor();
        s.i.blocks     = v->num_function_blocks();
        s.i.fixed      = v->static_function_blocks();
        s.i.protocols  = v->protocols();
        s.i.extensions = v->extensions();
        if (v->ump_version() != ((uint32_t(w.i.major) << 8) | w.i.minor))
            c.fail("field", "UMP version read as %x", v->ump_version());
    }
    if (auto v = midi::as_device_identity_view(p))
    {
        kinds.push_back(Said::identity);
        const auto i = v->identity();
        s.id         = { i.manufacturer, i.family, i.model, i.revision };
    }
    if (auto v = midi::as_endpoint_name_view(p))
        kinds.push_back(Said::name), form = v->format(), s.text = v->payload(), multi = true;
    if (auto v = midi::as_product_instance_id_view(p))
        kinds.push_back(Said::product), form = v->format(), s.text = v->payload(), multi = true;
    if (auto v = midi::as_stream_configuration_view(p))
    {
        kinds.push_back(p.status() == midi::stream_status::stream_configuration_request ? Said::config_request : Said::config_notify);
        s.a = v->protocol();
        s.b = v->extensions();
    }
    if (auto v = midi::as_function_block_discovery_view(p))
    {
        kinds.push_back(Said::block_discovery);
        s.a      = v->function_block();
        s.filter = v->filter();
        if (w.kind == Said::block_discovery)
        {
            if (v->requests_info() != bool(w.filter & 1) || v->requests_name() != bool(w.filter & 2))
                c.fail("filter", "function block discovery with filter %02x: info %d, name %d", w.filter, v->requests_info(), v->requests_name());
            for (unsigned b = 0; b < 32; ++b)
                if (v->requests_function_block(uint8_t(b)) != (w.a == 0xFF || w.a == b))
                    c.fail("filter", "function block discovery for block %02x: block %u %s", w.a, b, v->requests_function_block(uint8_t(b)) ? "requested" : "not requested");
        }
    }
    if (auto v = midi::as_function_block_info_view(p))
    {
        kinds.push_back(Said::block_info);
        s.a  = v->function_block();
        s.fb = { v->active(), v->direction(), v->midi1(), v->ui_hint(), v->first_group(), v->num_groups_spanned(), v->ci_message_version(), v->max_num_sysex8_streams() };
    }
    if (auto v = midi::as_function_block_name_view(p))
        kinds.push_back(Said::block_name), form = v->format(), s.text = v->payload(), s.a = v->function_block(), multi = true;

    if (kinds.size() != 1 || kinds[0] != w.kind)
        c.fail("kind", "%s taken for %s (%zu views fit): %s", kind_name(w.kind), kinds.empty() ? "nothing" : kind_name(kinds[0]), kinds.size(), str(p).c_str());
    s.kind = w.kind;
    if (s.a != w.a || s.b != w.b || s.filter != w.filter || !(s.i == w.i) || !(s.id == w.id) || !(s.fb == w.fb))
        c.fail("field", "%s arrived with other contents than sent: %s", kind_name(w.kind), str(p).c_str());
    if (multi)
    {
        const auto want = f.count == 1 ? midi::packet_format::complete : f.index == 0 ? midi::packet_format::start : f.index + 1 == f.count ? midi::packet_format::end : midi::packet_format::cont;
        if (form != want)
            c.fail("field", "%s: packet %zu of %zu has format %d", kind_name(w.kind), f.index, f.count, int(form));
    }
    return s;
}

struct Text // a name being put together
{
    bool                       open = false;
    std::string                part;
    std::optional<std::string> known;
    void                       take(midi::packet_format f, const std::string& s)
    {
        switch (f)
        {
        case midi::packet_format::complete: known = s; open = false; break;
        case midi::packet_format::start: part = s; open = true; break;
        case midi::packet_format::cont:
            if (open)
                part += s;
            break;
        default:
            if (open)
                known = part + s;
            open = false;
        }
    }
};

Block gen_block(Ctx& c)
{
    Block b;
    b.active    = c.choose(4) != 3;
    b.direction = uint8_t(3 - c.choose(3));
    b.midi1     = uint8_t(c.choose(3));
    do
        b.hint = uint8_t(1 + c.choose(3));
    while (!(b.hint & b.direction));
    b.first   = uint8_t(c.choose(2) ? c.choose(16) : 0);
    b.groups  = uint8_t(c.choose(3) == 2 ? 16 - b.first : 1 + c.choose(16 - b.first));
    b.ci      = uint8_t(c.choose(2) ? c.choose(128) : c.pick({ 0u, 1u, 2u }));
    b.streams = uint8_t(c.choose(2) ? c.choose(256) : 0);
    return b;
}
Info gen_info(Ctx& c, uint8_t blocks)
{
    Info i;
    i.major      = uint8_t(c.choose(4) == 3 ? c.choose(256) : 1);
    i.minor      = uint8_t(c.choose(2) ? c.choose(256) : 1);
    i.blocks     = blocks;
    i.protocols  = uint8_t(1 + c.choose(3));
    i.extensions = uint8_t(c.choose(4));
    i.fixed      = c.choose(2);
    return i;
}
uint32_t gen_manufacturer_id(Ctx& c)
{
    switch (c.choose(3))
    {
    case 0: return (1 + c.choose(127)) << 16;
    case 1: return c.choose(1u << 14) << 1 & 0x7F00 | c.choose(128); // 00 xx yy
    default: return 0x002109;
    }
}

void run(Ctx& c)
{
    // the endpoint
    Description d;
    auto        describe = [&] {
        const uint32_t n = c.choose(3) == 2 ? c.pick({ 32u, 31u, 17u, 0u }) : 1 + c.choose(5);
        d.info           = gen_info(c, uint8_t(n));
        d.id             = { gen_manufacturer_id(c), c.choose(1u << 14), c.choose(1u << 14), c.choose(2) ? c.choose(1u << 28) : c.choose(128) << (7 * c.choose(4)) };
        d.name           = gen_text(c, gen_name_size(c));
        d.product        = gen_text(c, c.choose(2) ? 16 - c.choose(3) : c.choose(17));
        d.protocol       = uint8_t(d.info.protocols & 1 ? 1 : 2);
        d.jr             = 0;
        d.blocks.clear();
        d.names.clear();
        for (uint32_t k = 0; k < n; ++k)
        {
            d.blocks.push_back(gen_block(c));
            d.names.push_back(gen_text(c, n > 8 ? c.choose(20) : gen_name_size(c)));
        }
    };
    describe();
    uint32_t generation = 0; // counts changes of the description

    // the client's knowledge
    struct
    {
        std::optional<Info>              info;
        std::optional<Identity>          id;
        Text                             name, product;
        std::optional<std::pair<int, int>> config;
        std::map<uint8_t, Block>         blocks;
        std::map<uint8_t, Text>          names;
    } k;

    Wire           to_endpoint, to_client;
    const uint32_t p_loss = c.pick({ 0u, 0u, 40u, 200u }), p_dup = c.pick({ 0u, 30u, 150u }), p_other = c.pick({ 0u, 60u });
    const bool     crashes = c.choose(3) == 2, changes = c.choose(3) == 2;
    bool           faults = true;
    uint64_t       learned = 0, requests = 0;

    //! a message gets lost whole, or from / up to some packet (never only its middle: there is nothing to notice that by)
    auto post = [&](Wire& w, Letter l) {
        if (faults && p_loss && c.pm(p_loss))
        {
            c.fault("message lost");
            if (l.size() == 1 || c.choose(2))
                return;
            if (c.choose(2))
                l.resize(1 + c.choose(uint32_t(l.size() - 1)));
            else
                l.erase(l.begin(), l.begin() + 1 + c.choose(uint32_t(l.size() - 1)));
        }
        w.put(l);
        if (faults && p_dup && c.pm(p_dup))
        {
            c.fault("message duplicated");
            w.put(l);
        }
    };

    auto endpoint_handles = [&](const Flying& f) {
        hear(c, f);
        // the endpoint itself acts on nothing but what the views say
        if (auto v = midi::as_endpoint_discovery_view(f.p))
        {
            Said s;
            if (v->requests_info())
                s = {}, s.kind = Said::info, s.i = d.info, post(to_client, put(c, s));
            if (v->requests_device_identity())
                s = {}, s.kind = Said::identity, s.id = d.id, post(to_client, put(c, s));
            if (v->requests_name())
                s = {}, s.kind = Said::name, s.text = d.name, post(to_client, put(c, s));
            if (v->requests_product_instance_id())
                s = {}, s.kind = Said::product, s.text = d.product, post(to_client, put(c, s));
            if (v->requests_stream_configuration())
                s = {}, s.kind = Said::config_notify, s.a = d.protocol, s.b = d.jr, post(to_client, put(c, s));
        }
        else if (auto v = midi::as_function_block_discovery_view(f.p))
        {
            for (uint8_t b = 0; b < d.blocks.size(); ++b)
                if (v->requests_function_block(b))
                {
                    Said s;
                    if (v->requests_info())
                    {
                        s = {}, s.kind = Said::block_info, s.a = b, s.fb = d.blocks[b];
                        const auto& o     = s.fb;
                        const bool  plain = o.active && !o.midi1 && o.hint == o.direction && !o.ci && !o.streams;
                        post(to_client, put(c, s, plain && c.choose(2)));
                    }
                    if (v->requests_name())
                        s = {}, s.kind = Said::block_name, s.a = b, s.text = d.names[b], post(to_client, put(c, s));
                }
        }
        else if (f.p.status() == midi::stream_status::stream_configuration_request)
        {
            auto v = midi::as_stream_configuration_view(f.p);
            if (v->protocol() & d.info.protocols)
                d.protocol = v->protocol(), d.jr = v->extensions() & d.info.extensions;
            Said s;
            s.kind = Said::config_notify, s.a = d.protocol, s.b = d.jr;
            post(to_client, put(c, s));
        }
    };
    auto client_handles = [&](const Flying& f) {
        const Said s = hear(c, f);
        ++learned;
        const auto form = midi::packet_format((f.p.data[0] >> 26) & 3);
        switch (s.kind)
        {
        case Said::info: k.info = s.i; break;
        case Said::identity: k.id = s.id; break;
        case Said::name: k.name.take(form, s.text); break;
        case Said::product: k.product.take(form, s.text); break;
        case Said::config_notify: k.config = std::make_pair(int(s.a), int(s.b)); break;
        case Said::block_info: k.blocks[s.a] = s.fb; break;
        case Said::block_name: k.names[s.a].take(form, s.text); break;
        default: c.fail("kind", "the client got a request: %s", str(f.p).c_str());
        }
        c.state((uint64_t(s.kind) << 32) ^ (uint64_t(form) << 40) ^ (uint64_t(s.a) << 16) ^ (k.blocks.size() << 8) ^ (k.info ? 1 : 0));
    };
    auto ask = [&](uint8_t filter) {
        Said s;
        s.kind = Said::discovery, s.a = 1, s.b = uint8_t(c.choose(3)), s.filter = filter;
        post(to_endpoint, put(c, s));
        ++requests;
    };
    auto ask_block = [&](uint8_t b, uint8_t filter) {
        Said s;
        s.kind = Said::block_discovery, s.a = b, s.filter = filter;
        post(to_endpoint, put(c, s));
        ++requests;
    };
    auto step = [&] {
        Flying f;
        c.advance(c.choose(3) * 1000000 + 32000);
        if (p_other && c.pm(p_other)) // other traffic on the line is taken for nothing of this
        {
            Packet o = gen_other_packet(c);
            if ((o.data[0] >> 28) == 0xF)
                o.data[0] = (o.data[0] & 0xFC00FFFFu) | (c.pick({ 0x20u, 0x21u, 0x07u, 0x0Fu, 0x13u }) << 16);
            if (midi::as_endpoint_discovery_view(o) || midi::as_endpoint_info_view(o) || midi::as_device_identity_view(o) || midi::as_endpoint_name_view(o) || midi::as_product_instance_id_view(o) ||
                midi::as_stream_configuration_view(o) || midi::as_function_block_discovery_view(o) || midi::as_function_block_info_view(o) || midi::as_function_block_name_view(o))
                c.fail("kind", "packet %s taken for a discovery message", str(o).c_str());
        }
        const bool first = c.choose(2);
        if (first ? to_endpoint.take(c, f) : to_client.take(c, f))
            ;
        else if (!(first ? to_client.take(c, f) : to_endpoint.take(c, f)))
            return false;
        c.ev("packet", f.said->kind, f.index, (uint64_t(f.p.data[0]) << 32) | f.p.data[1]);
        if (f.said->kind == Said::discovery || f.said->kind == Said::config_request || f.said->kind == Said::block_discovery)
            endpoint_handles(f);
        else
            client_handles(f);
        return true;
    };

    Ops ops(c, c.pick({ 4u, 12u }), 60);
    while (ops.next())
    {
        switch (c.weighted({ 6, 5, 2, crashes ? 1u : 0u, changes ? 2u : 0u }))
        {
        case 0: ask(uint8_t(c.choose(2) ? 31 : c.choose(32))); break;
        case 1: ask_block(uint8_t(c.choose(2) ? 0xFF : c.choose(32)), uint8_t(c.choose(2) ? 3 : c.choose(4))); break;
        case 2:
        {
            Said s;
            s.kind = Said::config_request, s.a = uint8_t(1 + c.choose(2)), s.b = uint8_t(c.choose(4));
            post(to_endpoint, put(c, s));
            break;
        }
        case 3:
            c.fault("endpoint crashed");
            to_endpoint.clear();
            to_client.clear();
            describe();
            ++generation;
            break;
        default:
        {
            // the endpoint changes and notifies
            ++generation;
            c.fault("endpoint changed");
            Said s;
            if (!d.blocks.empty() && c.choose(3))
            {
                const uint8_t b = uint8_t(c.choose(uint32_t(d.blocks.size())));
                if (c.choose(2))
                {
                    d.blocks[b] = gen_block(c);
                    s.kind = Said::block_info, s.a = b, s.fb = d.blocks[b];
                }
                else
                {
                    d.names[b] = gen_text(c, gen_name_size(c));
                    s.kind = Said::block_name, s.a = b, s.text = d.names[b];
                }
            }
            else
            {
                d.name = gen_text(c, gen_name_size(c));
                s.kind = Said::name, s.text = d.name;
            }
            post(to_client, put(c, s));
        }
        }
        for (uint32_t n = c.choose(12); n; --n)
            step();
    }
    ops.close();
    // the faults stop; what is under way arrives, then the client asks for everything once more
    faults = false;
    for (uint32_t n = 0; step(); ++n)
        if (n > 200000)
            c.fail("endless", "the conversation does not come to rest");
    ask(midi::discovery_filter::endpoint_all);
    ask_block(0xFF, midi::discovery_filter::function_block_all);
    size_t replies = 0;
    while (step())
        if (++replies > 20000)
            c.fail("endless", "the conversation does not come to rest");
    c.check(6);
    if (!k.info || !(*k.info == d.info))
        c.fail("knowledge", "endpoint info is %s at the client", k.info ? "wrong" : "unknown");
    if (!k.id || !(*k.id == d.id))
        c.fail("knowledge", "device identity is %s at the client", k.id ? "wrong" : "unknown");
    if (!k.name.known || *k.name.known != d.name)
        c.fail("knowledge", "endpoint name is '%s' at the client, not '%s'", k.name.known ? k.name.known->c_str() : "unknown", d.name.c_str());
    if (!k.product.known || *k.product.known != d.product)
        c.fail("knowledge", "product instance id is '%s' at the client, not '%s'", k.product.known ? k.product.known->c_str() : "unknown", d.product.c_str());
    if (!k.config || k.config->first != d.protocol || k.config->second != d.jr)
        c.fail("knowledge", "stream configuration is %s at the client", k.config ? "wrong" : "unknown");
    for (uint8_t b = 0; b < k.info->blocks; ++b)
    {
        c.check();
        if (!k.blocks.count(b) || !(k.blocks[b] == d.blocks[b]))
            c.fail("knowledge", "function block %u is %s at the client", b, k.blocks.count(b) ? "wrong" : "unknown");
        if (!k.names[b].known || *k.names[b].known != d.names[b])
            c.fail("knowledge", "name of function block %u is '%s' at the client, not '%s'", b, k.names[b].known ? k.names[b].known->c_str() : "unknown", d.names[b].c_str());
    }
    c.probe("messages understood by the client", learned);
    c.probe("requests", requests);
    c.probe("changes of the endpoint", generation);
    if (learned > 8 && requests > 3)
        c.nontrivial();
}
} // namespace

const Scenario& sim::scenario()
{
    static const Scenario s{ "C21",
                             "a client discovering an endpoint over a link that loses and duplicates messages and lets them overtake each other, while the endpoint crashes, restarts differently and changes; then the "
                             "faults stop and one more round of requests must complete the client's knowledge; non-trivial: more than three requests and eight messages understood; distinct by hash of the complete "
                             "event log",
                             run, 150000, false, "stream message factories, senders and views", "link, client and endpoint application logic",
                             "packets of one name stay in order and a name never loses only packets from its middle: the protocol has no way to notice that" };
    return s;
}
