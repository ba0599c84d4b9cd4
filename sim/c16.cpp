// C16: A MIDI-CI conversation conveys exactly what was said
#include "ci.h"
#include <map>
#include <set>
using namespace sim;

namespace {

//! what every receiver does with a message: it is of its type and of no other
void recognise(Ctx& c, const CiMsg& sent, const sysex7& s)
{
    const Msg a = to_msg(sent.m), b = to_msg(s);
    c.check();
    if (!(a == b))
        c.fail("changed", "%s arrived as %s, sent was %s", sent.kind, str(b).c_str(), str(a).c_str());
    sent.verify(c, s);
    c.state(mix64(hash_bytes(reinterpret_cast<const uint8_t*>(sent.kind), std::strlen(sent.kind))) + std::min<size_t>(a.data.size(), 1000));
    for_each_view([&](auto tag, const char* name, std::initializer_list<uint8_t> subtypes) {
        using V     = typename decltype(tag)::type;
        bool member = false;
        if (sent.has_view && a.man == 0x7E0000 && a.data.size() > 2 && a.data[1] == 0x0D)
            for (auto x : subtypes)
                member = member || x == a.data[2];
        c.check();
        if (V::validate(s) != member)
            c.fail(member ? "not-recognised" : "mistaken", "%s of %zu bytes is %s as %s", sent.kind, a.data.size(), member ? "not recognised" : "taken", name);
    });
    c.check();
    if (sent.kind[0] != 'i' || sent.kind[1] != 'd')
        if (us::is_identity_request(s) || us::is_identity_reply(s))
            c.fail("mistaken", "%s is taken as identity message", sent.kind);
}

//! a device that hands messages on (and one that changed its MUID) re-addresses them: nothing else changes
void readdress(Ctx& c, const CiMsg& sent)
{
    const Msg a = to_msg(sent.m);
    if (a.man == 0x7E0000 && a.data.size() >= 3 && a.data[1] == 0x06)
    {
        // identity messages: only the device id can be changed
        us::message m = c.choose(2) ? us::message(us::identity_request()) : us::make_identity_reply(0x7F0000, 1, 2, 3);
        if (m.device_id() != 0x7F || m.type() != us::type::general_information || m.subtype() != (m.data.size() == 3 ? 1 : 2))
            c.fail("readdress", "identity message reads as device %x type %x subtype %x", m.device_id(), m.type(), m.subtype());
        static_cast<sysex7&>(m) = sent.m;
        Msg want                = a;
        for (int k = 0; k < 3; ++k)
        {
            c.check();
            if (!(to_msg(m) == want) || m.device_id() != want.data[0] || m.type() != us::type::general_information || m.subtype() != want.data[2])
                c.fail("readdress", "%s: is %s, expected %s, reads as device %x type %x subtype %x", sent.kind, str(to_msg(m)).c_str(), str(want).c_str(), m.device_id(), m.type(), m.subtype());
            want.data[0] = k ? a.data[0] : uint8_t(c.choose(128));
            m.set_device_id(want.data[0]);
        }
        c.probe("messages readdressed");
        return;
    }
    if (a.man != 0x7E0000 || a.data.size() < 12 || a.data[1] != 0x0D)
        return;
    ci::message m(0, 1, 2);
    static_cast<sysex7&>(m) = sent.m;
    Msg  want               = a;
    auto u28                = [](const Msg& x, size_t i) { return uint32_t(x.data[i]) | uint32_t(x.data[i + 1]) << 7 | uint32_t(x.data[i + 2]) << 14 | uint32_t(x.data[i + 3]) << 21; };
    auto look               = [&](const char* when) {
        c.check();
        if (!(to_msg(m) == want))
            c.fail("readdress", "%s %s: is %s, expected %s", sent.kind, when, str(to_msg(m)).c_str(), str(want).c_str());
        if (m.device_id() != want.data[0] || m.type() != us::type::capability_inquiry || m.subtype() != want.data[2] || m.message_version() != want.data[3] ||
            m.source_muid() != u28(want, 4) || m.destination_muid() != u28(want, 8))
            c.fail("readdress", "%s %s: reads as device %x type %x subtype %x version %x from %x to %x, is %s", sent.kind, when, m.device_id(), m.type(), m.subtype(), m.message_version(),
                   unsigned(m.source_muid()), unsigned(m.destination_muid()), str(want).c_str());
    };
    look("as sent");
    for (int k = 0; k < 3; ++k)
    {
        const uint32_t v = c.choose(1u << 28);
        switch (c.choose(3))
        {
        case 0:
            m.set_source_muid(v);
            for (int i = 0; i < 4; ++i)
                want.data[4 + i] = (v >> (7 * i)) & 0x7F;
            break;
        case 1:
            m.set_destination_muid(v);
            for (int i = 0; i < 4; ++i)
                want.data[8 + i] = (v >> (7 * i)) & 0x7F;
            break;
        default:
            m.set_device_id(v & 0x7F);
            want.data[0] = v & 0x7F;
        }
        look("readdressed");
    }
    m.set_source_muid(u28(a, 4));
    m.set_destination_muid(u28(a, 8));
    m.set_device_id(a.data[0]);
    want = a;
    look("addressed back");
    c.probe("messages readdressed");
}

//--------------------------------------------------------------------------
// one direction: every kind of message over every transport

void over_packets(Ctx& c, bool big)
{
    const uint32_t ngroups = 1 + c.choose(4);
    struct Port
    {
        uint8_t                                 group;
        std::deque<CiMsg>                       expected;
        std::deque<Packet>                      flight;
        std::unique_ptr<midi::sysex7_collector> coll;
    };
    std::vector<Port> ports(ngroups);
    const uint8_t     g0 = uint8_t(c.choose(16));
    for (uint32_t i = 0; i < ngroups; ++i)
    {
        ports[i].group = uint8_t((g0 + i * 3) & 15);
        ports[i].coll  = std::make_unique<midi::sysex7_collector>([&c, &ports, i](const sysex7& s) {
            auto& p = ports[i];
            if (p.expected.empty())
                c.fail("invented", "message %s arrived, none was sent", str(to_msg(s)).c_str());
            recognise(c, p.expected.front(), s);
            p.expected.pop_front();
            c.ev("arrived", i, s.data.size());
        });
    }
    uint64_t n = 0, switches = 0;
    uint32_t last = 0;
    auto     step = [&](uint32_t i) {
        const Packet p = ports[i].flight.front();
        ports[i].flight.pop_front();
        switches += i != last;
        last = i;
        for (auto& o : ports) // demultiplexing by what the packet says
            if (o.group == ((p.data[0] >> 24) & 15))
                o.coll->feed(p);
        c.ev("packet", p.data[0], p.data[1]);
        c.advance(256000);
    };
    const uint32_t p_other = c.pick({ 0u, 60u, 250u });
    const CiTopic  topic(c);
    Ops            ops(c, c.pick({ 5u, 20u }), 80);
    for (bool more = true; more;)
    {
        more = ops.next();
        if (more)
        {
            auto& p = ports[c.choose(ngroups)];
            auto  m = topic.next(c, big);
            c.ev("say", hash(to_msg(m.m)), p.group);
            if (c.choose(4) == 3)
                readdress(c, m);
            c.text("  %s of %zu bytes on group %u", m.kind, m.m.data.size(), p.group);
            for (auto& q : packetise<7>(c, to_msg(m.m), p.group, 0, false))
                p.flight.push_back(q);
            p.expected.push_back(std::move(m));
            ++n;
        }
        size_t budget = 0;
        for (auto& p : ports)
            budget += p.flight.size();
        if (more)
            budget = c.choose(uint32_t(budget + 1));
        const size_t dense = budget > 60 ? budget / 30 : 1;
        uint32_t     cur   = 0;
        for (size_t k = 0; k < budget; ++k)
        {
            if (k % dense == 0)
            {
                cur = c.choose(ngroups);
                if (p_other && c.pm(p_other))
                {
                    const Packet o = gen_other_packet(c);
                    for (auto& p : ports)
                        p.coll->feed(o);
                    c.probe("other packets in between");
                }
            }
            else
                cur = (cur + 1) % ngroups;
            while (ports[cur].flight.empty())
                cur = (cur + 1) % ngroups;
            step(cur);
        }
    }
    for (auto& p : ports)
        if (!p.expected.empty())
            c.fail("lost", "%s never arrived", p.expected.front().kind);
    c.probe("messages over packets", n);
    c.probe("switches between groups", switches);
    if (n >= 2)
        c.nontrivial();
}

//! serial line; form 0: SysEx callback of the parser, 1: packets of the parser collected, 2: as 1, bytes made from packets
void over_bytes(Ctx& c, bool big, uint32_t form)
{
    std::deque<CiMsg> expected;
    auto              arrived = [&](const sysex7& s) {
        if (expected.empty())
            c.fail("invented", "message %s arrived, none was sent", str(to_msg(s)).c_str());
        recognise(c, expected.front(), s);
        expected.pop_front();
        c.ev("arrived", s.data.size());
    };
    midi::sysex7_collector                        coll(arrived);
    std::optional<midi::midi1_byte_stream_parser> parser;
    const uint8_t                                 group = uint8_t(c.choose(16));
    uint64_t                                      others = 0;
    auto                                          on_packet = [&](midi::universal_packet p) {
        if (midi::is_sysex7_packet(p))
            coll.feed(p);
        else
            ++others;
    };
    if (form == 0)
        parser.emplace(group, on_packet, arrived);
    else
        parser.emplace(group, on_packet, midi::midi1_byte_stream_parser::sysex_callback{});
    const uint32_t p_rt = c.pick({ 0u, 30u, 200u });
    uint64_t       n = 0, rt = 0;
    const CiTopic  topic(c);
    Ops            ops(c, c.pick({ 5u, 20u }), 80);
    Talker         talk;
    Bytes          line;
    while (ops.next())
    {
        if (c.choose(4) == 3) // other traffic between the messages
        {
            talk.channel(c, line);
            c.probe("other messages in between");
        }
        auto m = topic.next(c, big);
        c.ev("say", hash(to_msg(m.m)));
        c.text("  %s of %zu bytes", m.kind, m.m.data.size());
        Bytes b;
        if (form == 2)
        {
            for (auto& q : packetise<7>(c, to_msg(m.m), group, 0, false))
            {
                uint8_t    buf[8];
                const auto z = midi::to_midi1_byte_stream(q, buf);
                b.insert(b.end(), buf, buf + z);
            }
        }
        else
        {
            const Msg   x = to_msg(m.m);
            const Bytes h = man_bytes7(x.man);
            b.push_back(0xF0);
            b.insert(b.end(), h.begin(), h.end());
            b.insert(b.end(), x.data.begin(), x.data.end());
            b.push_back(0xF7);
        }
        expected.push_back(std::move(m));
        ++n;
        const size_t dense = b.size() > 80 ? b.size() / 40 : 1;
        for (size_t i = 0; i < b.size(); ++i)
        {
            if (p_rt && i % dense == 0 && c.pm(p_rt))
            {
                line.push_back(Talker::realtime(c));
                ++rt;
            }
            line.push_back(b[i]);
        }
        // in portions of any size
        while (!line.empty() && c.choose(5))
        {
            const size_t k = 1 + c.choose(uint32_t(line.size()));
            parser->feed(line.data(), k);
            line.erase(line.begin(), line.begin() + long(k));
            c.ev("portion", k);
            c.advance(320000 * k);
        }
    }
    parser->feed(line.data(), line.size());
    if (!expected.empty())
        c.fail("lost", "%s never arrived", expected.front().kind);
    c.probe(form == 0 ? "messages over SysEx callback" : form == 1 ? "messages over parser packets" : "messages over packets and bytes", n);
    c.probe("real time inside messages", rt);
    if (n >= 2)
        c.nontrivial();
}

//--------------------------------------------------------------------------
// two devices talk; whole messages get lost, are doubled and overtake each other

using Profiles = std::vector<ci::profile_id>;
bool operator<(const ci::profile_id& a, const ci::profile_id& b) { return std::memcmp(&a, &b, 5) < 0; }
bool same(const ci::profile_id& a, const ci::profile_id& b) { return std::memcmp(&a, &b, 5) == 0; }
std::string key(const ci::profile_id& p) { return std::string(reinterpret_cast<const char*>(&p), 5); }

struct Facts // what one device knows about the other
{
    midi::device_identity        id{};
    uint32_t                     categories = 0, max_size = 0, path = 0, fb = 0;
    std::map<uint32_t, Bytes>    info;
    std::set<std::string>        enabled, disabled;
    std::map<std::string, Bytes> details, props;
    uint32_t                     requests = 0, features = 0, report = 0;
    std::string                  nak, ack;
};

struct Conversation
{
    Ctx& c;
    explicit Conversation(Ctx& ctx) : c(ctx) {}

    uint32_t muid_a = 0, muid_b = 0, muid_c = 0;
    Facts    a_is, b_is;       // the truth about each device
    Facts    a_knows, b_knows; // about the other
    Bytes    set_value, specific;
    bool     big = false;

    struct Event
    {
        uint64_t    at, seq;
        int         to; // 0: A, 1: B, 2: timer of A
        sysex7      m;
        uint32_t    timer = 0;
        bool        operator<(const Event& o) const { return at != o.at ? at < o.at : seq < o.seq; }
    };
    std::set<Event> queue; // ordered by time
    uint64_t        seq = 0, messages = 0, losses = 0;
    uint32_t        loss = 0, dup = 0, late = 0, faults_left = 0, fault_budget = 0;
    uint8_t         group = 0;
    uint32_t        p_other = 0;

    void post(int to, const sysex7& m)
    {
        ++messages;
        c.ev("post", to, hash(to_msg(m)), c.now());
        if (faults_left && loss && c.pm(loss))
        {
            --faults_left;
            ++losses;
            c.fault("message lost");
            return;
        }
        int n = 1;
        if (faults_left && dup && c.pm(dup))
        {
            --faults_left;
            c.fault("message duplicated");
            ++n;
        }
        while (n--)
        {
            uint64_t d = 1000000 + c.choose(2000000);
            if (faults_left && late && c.pm(late))
            {
                --faults_left;
                d += c.choose(200) * 1000000ull;
                c.fault("message delayed");
            }
            queue.insert({ c.now() + d, seq++, to, m });
        }
    }

    std::unique_ptr<midi::sysex7_collector> coll[2];
    void arrive(const Event& e)
    {
        auto packets = packetise<7>(c, to_msg(e.m), group, 0, false);
        size_t dense = packets.size() > 40 ? packets.size() / 20 : 1, k = 0;
        for (auto& p : packets)
        {
            if (p_other && k++ % dense == 0 && c.pm(p_other))
                coll[e.to]->feed(gen_other_packet(c));
            coll[e.to]->feed(p);
        }
    }

    // ---- B answers ----------------------------------------------------------
    std::map<uint32_t, std::map<uint32_t, Bytes>> b_sets; // chunks by request
    std::map<uint32_t, std::string>               b_set_header;
    static std::string value_of(std::string_view json, const std::string& k)
    {
        const auto p = json.find("\"" + k + "\":");
        if (p == std::string_view::npos)
            return {};
        auto r = json.substr(p + k.size() + 3);
        if (!r.empty() && r[0] == '"')
            return std::string(r.substr(1, r.find('"', 1) - 1));
        return std::string(r.substr(0, r.find_first_of(",}")));
    }
    static std::string header_of(const pe::property_data_message_view& v) { return std::string(reinterpret_cast<const char*>(v.header_begin()), v.header_size()); }
    template<typename F>
    void in_chunks(const Bytes& d, uint32_t size, F&& f)
    {
        const uint32_t n = std::max<uint32_t>(1, uint32_t((d.size() + size - 1) / size));
        for (uint32_t k = 1; k <= n; ++k)
        {
            const size_t b = (k - 1) * size, e = std::min<size_t>(d.size(), b + size);
            Bytes        part(d.begin() + long(b), d.begin() + long(e));
            f(uint16_t(n), uint16_t(k), pe::chunk(part));
        }
    }
    uint32_t chunk_b = 100, chunk_a = 100;

    void at_b(const sysex7& s)
    {
        auto v = midi::as_capability_inquiry_view(s);
        if (!v || (v->source_muid() != muid_a) || (v->destination_muid() != muid_b && v->destination_muid() != ci::broadcast_muid))
            return;
        const uint32_t me = muid_b, you = v->source_muid();
        if (auto q = ci::as<ci::discovery_inquiry_view>(s))
        {
            b_knows.id = q->identity(), b_knows.categories = q->categories(), b_knows.max_size = q->maximum_message_size(), b_knows.path = q->output_path_id();
            post(0, ci::make_discovery_reply(me, you, b_is.id, uint8_t(b_is.categories), b_is.max_size, q->output_path_id(), uint8_t(b_is.fb)));
        }
        else if (auto q2 = ci::as<ci::endpoint_information_inquiry_view>(s))
        {
            auto it = b_is.info.find(q2->status());
            if (it == b_is.info.end())
            {
                uint8_t d[5] = { 1, 2, 3, 4, 5 };
                post(0, ci::make_nak_message(*q2, 0x11, q2->status(), d, b_is.nak));
            }
            else
                post(0, ci::make_endpoint_information_reply(me, you, q2->status(), it->second.data(), it->second.size()));
        }
        else if (ci::as<ci::profile_inquiry_view>(s))
        {
            Profiles e, d;
            auto     id = [](const std::string& k) { return ci::profile_id{ uint8_t(k[0]), uint8_t(k[1]), uint8_t(k[2]), uint8_t(k[3]), uint8_t(k[4]) }; };
            for (auto& p : b_is.enabled)
                e.push_back(id(p));
            for (auto& p : b_is.disabled)
                d.push_back(id(p));
            post(0, ci::make_profile_inquiry_reply(me, you, e, d));
        }
        else if (auto q3 = ci::as<ci::profile_destination_view>(s))
        {
            const auto p = q3->profile();
            const auto dest = q3->params();
            if (q3->subtype() == ci::subtype::set_profile_on)
            {
                b_is.disabled.erase(key(p)), b_is.enabled.insert(key(p));
                post(0, ci::make_profile_enabled_notification(me, ci::broadcast_muid, p, dest));
            }
            else if (q3->subtype() == ci::subtype::set_profile_off)
            {
                b_is.enabled.erase(key(p)), b_is.disabled.insert(key(p));
                post(0, ci::make_profile_disabled_notification(me, ci::broadcast_muid, p, dest));
            }
        }
        else if (auto q4 = ci::as<ci::profile_details_inquiry_view>(s))
        {
            auto& d = b_is.details[key(q4->profile())];
            post(0, ci::make_profile_details_reply(me, you, q4->profile(), q4->target(), d.data(), d.size()));
        }
        else if (auto q5 = ci::as<ci::profile_specific_data_view>(s))
        {
            b_knows.details["specific"] = Bytes(q5->data_begin(), q5->data_end());
            uint8_t d[5] = { 0, 0, 0, 0, 9 };
            post(0, ci::make_ack_message(me, you, 0x7F, ci::subtype::profile_specific_data, 0, 0, d, b_is.ack));
        }
        else if (auto q6 = ci::as<ci::property_exchange_capabilities_view>(s))
        {
            b_knows.requests = q6->maximum_number_of_requests();
            post(0, ci::make_property_exchange_capabilities_reply(me, you, uint8_t(b_is.requests)));
        }
        else if (auto q7 = ci::as<ci::get_property_data_view>(s))
        {
            const auto& d = b_is.props[value_of(header_of(*q7), "resource")];
            in_chunks(d, chunk_b, [&](uint16_t n, uint16_t k, const pe::chunk& part) {
                if (k == 1)
                    post(0, ci::make_get_property_data_reply(me, you, 200, n, k, part, q7->request_id()));
                else
                    post(0, ci::make_get_property_data_reply(me, you, n, k, part, q7->request_id()));
            });
        }
        else if (auto q8 = ci::as<ci::set_property_data_view>(s))
        {
            auto& got = b_sets[q8->request_id()];
            if (q8->header_size())
                b_set_header[q8->request_id()] = header_of(*q8);
            got[q8->number_of_this_chunk()] = Bytes(q8->chunk_begin(), q8->chunk_end());
            if (got.size() == q8->number_of_chunks())
            {
                Bytes all;
                for (auto& x : got)
                    all.insert(all.end(), x.second.begin(), x.second.end());
                const auto& h = b_set_header[q8->request_id()];
                b_is.props[value_of(h, "resource")] = all;
                b_knows.props[value_of(h, "resource") + "/" + value_of(h, "offset")] = all;
                b_sets.erase(q8->request_id());
                post(0, ci::make_set_property_data_reply(me, you, 200, q8->request_id()));
            }
        }
        else if (auto q9 = ci::as<ci::subscription_view>(s))
        {
            if (q9->subtype() == ci::subtype::subscription_inquiry)
            {
                const auto r = value_of(header_of(*q9), "resource");
                post(0, ci::make_subscription_reply(me, you, 200, "sub7", q9->request_id()));
                in_chunks(b_is.props[r], chunk_b, [&](uint16_t n, uint16_t k, const pe::chunk& part) {
                    if (k == 1)
                        post(0, ci::make_subscription_inquiry(me, you, r, "full", "sub7", n, k, part, q9->request_id()));
                    else
                        post(0, ci::make_subscription_inquiry(me, you, n, k, part, q9->request_id()));
                });
            }
        }
        else if (auto q10 = ci::as<ci::midi_message_report_inquiry_view>(s))
        {
            b_knows.report = (q10->message_data_control() << 24u) | (q10->system_message_types() << 16) | (q10->channel_controller_message_types() << 8) | q10->note_data_message_types();
            post(0, ci::make_midi_message_report_reply(me, uint8_t(b_is.report >> 16), uint8_t(b_is.report >> 8 & 0x7F), uint8_t(b_is.report & 0x7F)));
            post(0, ci::make_midi_message_report_end(me));
        }
        else if (v->subtype() == ci::subtype::process_inquiry_capabilities_inquiry)
            post(0, ci::make_process_inquiry_capabilities_reply(me, you, uint8_t(b_is.features)));
    }

    // ---- A asks ---------------------------------------------------------------
    struct Step
    {
        const char*                                            name;
        std::function<std::vector<sysex7>(uint8_t)>            ask;
        std::function<bool(const sysex7&, uint8_t)>            take; // true: answered
    };
    std::vector<Step> steps;
    size_t            step = 0;
    uint8_t           request = 0;
    uint32_t          timer = 0, tries = 0;

    void ask()
    {
        ++timer;
        ++tries;
        c.ev("ask", step, tries);
        c.text("  A asks: %s", steps[step].name);
        for (auto& m : steps[step].ask(request))
            post(1, m);
        queue.insert({ c.now() + 300000000, seq++, 2, sysex7{}, timer });
    }
    void at_a(const sysex7& s)
    {
        auto v = midi::as_capability_inquiry_view(s);
        if (!v || step >= steps.size())
            return;
        if (v->source_muid() != muid_b || (v->destination_muid() != muid_a && v->destination_muid() != ci::broadcast_muid))
            return;
        // profile reports are noted whenever they come
        if (steps[step].take(s, request))
        {
            c.ev("answered", step);
            ++step;
            tries   = 0;
            request = (request + 1) & 0x7F;
            if (step < steps.size())
                ask();
        }
    }

    std::shared_ptr<std::map<uint32_t, Bytes>> parts = std::make_shared<std::map<uint32_t, Bytes>>();
    std::shared_ptr<std::string>               part_header = std::make_shared<std::string>();
    bool collect(const pe::property_data_message_view& v, Bytes& out)
    {
        if (v.header_size())
            *part_header = header_of(v);
        (*parts)[v.number_of_this_chunk()] = Bytes(v.chunk_begin(), v.chunk_end());
        if (parts->size() != v.number_of_chunks())
            return false;
        out.clear();
        for (auto& x : *parts)
            out.insert(out.end(), x.second.begin(), x.second.end());
        parts->clear();
        return true;
    }

    void add_steps()
    {
        auto one = [](sysex7 m) { return std::vector<sysex7>{ std::move(m) }; };
        steps.push_back({ "discovery",
                          [=](uint8_t) { return one(ci::make_discovery_inquiry(muid_a, a_is.id, uint8_t(a_is.categories), a_is.max_size, uint8_t(a_is.path))); },
                          [this](const sysex7& s, uint8_t) {
                              auto v = ci::as<ci::discovery_reply_view>(s);
                              if (!v)
                                  return false;
                              a_knows.id = v->identity(), a_knows.categories = v->categories(), a_knows.max_size = v->maximum_message_size();
                              a_knows.fb = v->function_block(), a_knows.path = v->output_path_id();
                              return true;
                          } });
        std::vector<uint32_t> order{ 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11 };
        for (size_t i = order.size(); i > 1; --i)
            std::swap(order[i - 1], order[c.choose(uint32_t(i))]);
        order.resize(4 + c.choose(9));
        for (auto o : order)
            switch (o)
            {
            case 0:
                for (auto& x : b_is.info)
                {
                    const uint32_t st = x.first;
                    steps.push_back({ "endpoint information", [=](uint8_t) { return one(ci::make_endpoint_information_inquiry(muid_a, muid_b, uint8_t(st))); },
                                      [this, st](const sysex7& s, uint8_t) {
                                          auto v = ci::as<ci::endpoint_information_reply_view>(s);
                                          if (!v || v->status() != st)
                                              return false;
                                          a_knows.info[st] = Bytes(v->information_data(), v->information_data() + v->information_data_length());
                                          return true;
                                      } });
                }
                break;
            case 1: // unknown status: refused
                steps.push_back({ "refusal", [=](uint8_t) { return one(ci::make_endpoint_information_inquiry(muid_a, muid_b, 0x7E)); },
                                  [this](const sysex7& s, uint8_t) {
                                      auto v = ci::as<ci::nak_view>(s);
                                      if (!v || v->transaction() != ci::subtype::endpoint_information_inquiry)
                                          return false;
                                      if (v->status_code() != 0x11 || v->status_data() != 0x7E || v->details()[4] != 5)
                                          c.fail("conversation", "nak status %u %u %u", v->status_code(), v->status_data(), v->details()[4]);
                                      a_knows.nak = std::string(v->message());
                                      return true;
                                  } });
                break;
            case 2:
            {
                steps.push_back({ "profiles", [=](uint8_t) { return one(ci::make_profile_inquiry_message(muid_a, muid_b)); },
                                  [this](const sysex7& s, uint8_t) {
                                      auto v = ci::as<ci::profile_inquiry_reply_view>(s);
                                      if (!v)
                                          return false;
                                      a_knows.enabled.clear(), a_knows.disabled.clear();
                                      for (auto& p : v->enabled_profiles())
                                          a_knows.enabled.insert(key(p));
                                      for (auto& p : v->disabled_profiles())
                                          a_knows.disabled.insert(key(p));
                                      return true;
                                  } });
                // switch the first disabled one on, the first enabled one off (different ones, each once)
                auto change = [&](std::string k, bool on) {
                    const ci::profile_id p{ uint8_t(k[0]), uint8_t(k[1]), uint8_t(k[2]), uint8_t(k[3]), uint8_t(k[4]) };
                    const auto           dest = ci::channel_profile(uint8_t(c.choose(16)), uint16_t(1 + c.choose(300)));
                    steps.push_back({ on ? "profile on" : "profile off",
                                      [=](uint8_t) { return one(on ? ci::make_profile_on_request(muid_a, muid_b, p, dest) : ci::make_profile_off_request(muid_a, muid_b, p, dest)); },
                                      [this, p, on, dest](const sysex7& s, uint8_t) {
                                          auto v = ci::as<ci::profile_destination_view>(s);
                                          if (!v || !same(v->profile(), p) || v->subtype() != (on ? ci::subtype::profile_enabled : ci::subtype::profile_disabled))
                                              return false;
                                          if (v->params().scope != dest.scope || (on && v->params().num_channels != dest.num_channels))
                                              c.fail("conversation", "profile destination %u/%u reported, requested %u/%u", v->params().scope, v->params().num_channels, dest.scope, dest.num_channels);
                                          (on ? a_knows.disabled : a_knows.enabled).erase(key(p));
                                          (on ? a_knows.enabled : a_knows.disabled).insert(key(p));
                                          return true;
                                      } });
                };
                if (!b_is.disabled.empty())
                    change(*b_is.disabled.begin(), true);
                if (!b_is.enabled.empty())
                    change(*b_is.enabled.begin(), false);
                break;
            }
            case 3:
                for (auto& x : b_is.details)
                {
                    const std::string    k = x.first;
                    const ci::profile_id p{ uint8_t(k[0]), uint8_t(k[1]), uint8_t(k[2]), uint8_t(k[3]), uint8_t(k[4]) };
                    const uint8_t        target = uint8_t(c.choose(128));
                    steps.push_back({ "profile details", [=](uint8_t) { return one(ci::make_profile_details_inquiry(muid_a, muid_b, p, target)); },
                                      [this, p, target](const sysex7& s, uint8_t) {
                                          auto v = ci::as<ci::profile_details_reply_view>(s);
                                          if (!v || !same(v->profile(), p) || v->target() != target)
                                              return false;
                                          a_knows.details[key(p)] = Bytes(v->target_data(), v->target_data() + v->target_data_length());
                                          return true;
                                      } });
                }
                break;
            case 4:
                specific = gen_content(c, gen_ci_size(c, big), 0x7F);
                a_is.details["specific"] = specific;
                steps.push_back({ "profile specific data", [=](uint8_t) { return one(ci::make_profile_specific_data_message(muid_a, muid_b, ci::profile_id{}, specific)); },
                                  [this](const sysex7& s, uint8_t) {
                                      auto v = ci::as<ci::ack_view>(s);
                                      if (!v || v->transaction() != ci::subtype::profile_specific_data)
                                          return false;
                                      a_knows.ack = std::string(v->message());
                                      return true;
                                  } });
                break;
            case 5:
                steps.push_back({ "property exchange capabilities", [=](uint8_t) { return one(ci::make_property_exchange_capabilities_inquiry(muid_a, muid_b, uint8_t(a_is.requests))); },
                                  [this](const sysex7& s, uint8_t) {
                                      auto v = ci::as<ci::property_exchange_capabilities_view>(s);
                                      if (!v || v->subtype() != ci::subtype::property_exchange_capabilities_reply)
                                          return false;
                                      a_knows.requests = v->maximum_number_of_requests();
                                      return true;
                                  } });
                break;
            case 6:
            case 7:
                for (auto& x : b_is.props)
                {
                    const std::string r = x.first;
                    steps.push_back({ "get property", [=](uint8_t q) { parts->clear(); return one(ci::make_get_property_data_inquiry(muid_a, muid_b, r, q)); },
                                      [this, r](const sysex7& s, uint8_t q) {
                                          auto v = ci::as<ci::get_property_data_view>(s);
                                          Bytes d;
                                          if (!v || v->subtype() != ci::subtype::get_property_data_reply || v->request_id() != q || !collect(*v, d))
                                              return false;
                                          if (value_of(*part_header, "status") != "200")
                                              c.fail("conversation", "property status is %s", value_of(*part_header, "status").c_str());
                                          a_knows.props[r] = d;
                                          return true;
                                      } });
                }
                break;
            case 8:
                set_value = gen_content(c, gen_ci_size(c, big), 0x7F);
                a_is.props["State/17"] = set_value;
                steps.push_back({ "set property",
                                  [=](uint8_t q) {
                                      std::vector<sysex7> r;
                                      const_cast<Conversation*>(this)->in_chunks(set_value, chunk_a, [&](uint16_t n, uint16_t k, const pe::chunk& part) {
                                          if (k == 1)
                                              r.push_back(ci::make_set_property_data_inquiry(muid_a, muid_b, "State", { { "offset", "17" } }, n, k, part, q));
                                          else
                                              r.push_back(ci::make_set_property_data_inquiry(muid_a, muid_b, n, k, part, q));
                                      });
                                      return r;
                                  },
                                  [this](const sysex7& s, uint8_t q) {
                                      auto v = ci::as<ci::set_property_data_view>(s);
                                      return v && v->subtype() == ci::subtype::set_property_data_reply && v->request_id() == q && value_of(header_of(*v), "status") == "200";
                                  } });
                break;
            case 9:
                if (!b_is.props.empty())
                {
                    const std::string r = b_is.props.begin()->first;
                    steps.push_back({ "subscribe", [=](uint8_t q) { parts->clear(); return one(ci::make_subscription_inquiry(muid_a, muid_b, r, "start", "", q)); },
                                      [this, r](const sysex7& s, uint8_t q) {
                                          auto  v = ci::as<ci::subscription_view>(s);
                                          Bytes d;
                                          if (!v || v->request_id() != q || v->subtype() != ci::subtype::subscription_inquiry || !collect(*v, d))
                                              return false;
                                          if (value_of(*part_header, "command") != "full" || value_of(*part_header, "resource") != r || value_of(*part_header, "subscribeId") != "sub7")
                                              c.fail("conversation", "subscription header is %s", part_header->c_str());
                                          a_knows.props[r] = d;
                                          return true;
                                      } });
                }
                break;
            case 10:
                steps.push_back({ "process inquiry capabilities", [=](uint8_t) { return one(ci::make_process_inquiry_capabilities_inquiry(muid_a, muid_b)); },
                                  [this](const sysex7& s, uint8_t) {
                                      auto v = ci::as<ci::process_inquiry_capabilities_reply_view>(s);
                                      if (!v)
                                          return false;
                                      a_knows.features = v->supported_features();
                                      return true;
                                  } });
                break;
            default:
                a_is.report = c.choose(1u << 7) << 24 | c.choose(128) << 16 | c.choose(128) << 8 | c.choose(128);
                steps.push_back({ "message report",
                                  [=](uint8_t) {
                                      return one(ci::make_midi_message_report_inquiry(muid_a, muid_b, uint8_t(a_is.report >> 24), uint8_t(a_is.report >> 16 & 0x7F), uint8_t(a_is.report >> 8 & 0x7F), uint8_t(a_is.report & 0x7F)));
                                  },
                                  [this](const sysex7& s, uint8_t) {
                                      auto v = ci::as<ci::midi_message_report_reply_view>(s);
                                      if (!v)
                                          return false;
                                      a_knows.report = v->system_message_types() << 16 | v->channel_controller_message_types() << 8 | v->note_data_message_types();
                                      return true;
                                  } });
            }
    }

    void run()
    {
        muid_a = gen_muid(c), muid_b = gen_muid(c), muid_c = gen_muid(c);
        if (muid_a == ci::broadcast_muid)
            muid_a = 5;
        while (muid_b == muid_a || muid_b == ci::broadcast_muid)
            muid_b = (muid_b + 1) & 0x0FFFFFFF;
        while (muid_c == muid_a || muid_c == muid_b || muid_c == ci::broadcast_muid)
            muid_c = (muid_c + 1) & 0x0FFFFFFF;
        big     = c.choose(12) == 11;
        group   = uint8_t(c.choose(16));
        p_other = c.pick({ 0u, 100u });
        loss    = c.pick({ 0u, 100u, 350u });
        dup     = c.pick({ 0u, 100u, 300u });
        late    = c.pick({ 0u, 100u, 300u });
        faults_left = fault_budget = c.pick({ 0u, 10u, 60u });
        chunk_a = c.pick({ 1000u, 40u, 7u, 128u });
        chunk_b = c.pick({ 1000u, 40u, 7u, 128u });
        if (big)
            chunk_a = chunk_b = 4000;
        auto profiles = [&](std::set<std::string>& to, uint8_t first) {
            for (uint32_t n = c.choose(5); n; --n)
            {
                auto p  = gen_profile(c);
                p.byte1 = first;
                to.insert(key(p));
            }
        };
        auto identity = [&] { return midi::device_identity{ midi::manufacturer_t(gen_manufacturer(c)), gen_u14(c), gen_u14(c), gen_muid(c) }; };
        a_is.id = identity(), b_is.id = identity();
        a_is.categories = gen_u7(c), b_is.categories = gen_u7(c);
        a_is.max_size = gen_muid(c), b_is.max_size = gen_muid(c);
        a_is.path = gen_u7(c), b_is.fb = gen_u7(c);
        b_is.path = a_is.path;
        a_is.requests = gen_u7(c), b_is.requests = gen_u7(c), b_is.features = gen_u7(c);
        b_is.report = c.choose(128) << 16 | c.choose(128) << 8 | c.choose(128);
        b_is.nak = gen_text(c, c.choose(40)), b_is.ack = gen_text(c, c.choose(300));
        profiles(b_is.enabled, 1), profiles(b_is.disabled, 2);
        for (uint32_t n = c.choose(3); n; --n)
            b_is.info[n - 1] = gen_content(c, gen_ci_size(c, big), 0x7F);
        for (uint32_t n = c.choose(3); n; --n)
            b_is.details[key(ci::profile_id{ uint8_t(n), 2, 3, 4, 5 })] = gen_content(c, gen_ci_size(c, big), 0x7F);
        for (uint32_t n = c.choose(3); n; --n)
            b_is.props["Resource" + std::to_string(n)] = gen_content(c, gen_ci_size(c, big), 0x7F);
        coll[0] = std::make_unique<midi::sysex7_collector>([this](const sysex7& s) { at_a(s); });
        coll[1] = std::make_unique<midi::sysex7_collector>([this](const sysex7& s) { at_b(s); });
        add_steps();
        const uint32_t p_noise = c.pick({ 0u, 50u, 200u });
        ask();
        uint64_t events = 0;
        while (step < steps.size())
        {
            if (queue.empty() || ++events > 20000)
                c.fail("no-progress", "conversation is stuck in step '%s'", steps[step].name);
            Event e = *queue.begin();
            queue.erase(queue.begin());
            c.set_now(e.at);
            if (e.to == 2)
            {
                if (e.timer != timer)
                    continue;
                c.ev("timeout", step);
                c.probe("messages repeated");
                if (!faults_left && tries > 3 + fault_budget)
                    c.fail("no-progress", "step '%s' is not answered although nothing is lost any more", steps[step].name);
                if (!loss && !late && tries > 1)
                    c.fail("no-progress", "step '%s' is not answered although nothing is lost", steps[step].name);
                request = (request + 1) & 0x7F;
                ask();
                continue;
            }
            if (p_noise && c.pm(p_noise)) // a third device talks to nobody here
            {
                auto m = gen_ci(c, c.choose(ci_kinds), { muid_c, (muid_c ^ 0x2000u) == muid_a || (muid_c ^ 0x2000u) == muid_b ? muid_c : muid_c ^ 0x2000u, 0x7F }, false);
                c.probe("messages of a third device");
                arrive({ c.now(), 0, int(c.choose(2)), m.m });
            }
            arrive(e);
        }
        // both know exactly
        auto same_id = [&](const char* who, const midi::device_identity& x, const midi::device_identity& y) {
            if (x.manufacturer != y.manufacturer || x.family != y.family || x.model != y.model || x.revision != y.revision)
                c.fail("conversation", "%s has a wrong idea of the other's identity", who);
        };
        auto num = [&](const char* what, uint32_t x, uint32_t y) {
            c.check();
            if (x != y)
                c.fail("conversation", "%s known as %x, is %x", what, x, y);
        };
        auto asked = [&](const char* name) {
            for (auto& s : steps)
                if (!std::strcmp(s.name, name))
                    return true;
            return false;
        };
        same_id("A", a_knows.id, b_is.id);
        same_id("B", b_knows.id, a_is.id);
        num("B's categories", a_knows.categories, b_is.categories);
        num("A's categories", b_knows.categories, a_is.categories);
        num("B's maximum size", a_knows.max_size, b_is.max_size);
        num("A's maximum size", b_knows.max_size, a_is.max_size);
        num("B's function block", a_knows.fb, b_is.fb);
        num("A's path", b_knows.path, a_is.path);
        num("A's path, repeated", a_knows.path, a_is.path);
        if (asked("endpoint information") && a_knows.info != b_is.info)
            c.fail("conversation", "endpoint information differs");
        if (asked("refusal") && a_knows.nak != b_is.nak)
            c.fail("conversation", "nak text differs");
        if (asked("profiles") && (a_knows.enabled != b_is.enabled || a_knows.disabled != b_is.disabled))
            c.fail("conversation", "A knows %zu+%zu profiles, B has %zu+%zu", a_knows.enabled.size(), a_knows.disabled.size(), b_is.enabled.size(), b_is.disabled.size());
        if (asked("profile details") && a_knows.details != b_is.details)
            c.fail("conversation", "profile details differ");
        if (asked("profile specific data") && (a_knows.ack != b_is.ack || b_knows.details["specific"] != specific))
            c.fail("conversation", "profile specific data differ");
        if (asked("property exchange capabilities"))
            num("B's requests", a_knows.requests, b_is.requests), num("A's requests", b_knows.requests, a_is.requests);
        if (asked("get property") || asked("subscribe"))
            for (auto& x : a_knows.props)
                if (x.second != b_is.props[x.first])
                    c.fail("conversation", "property %s has %zu bytes at A, %zu at B", x.first.c_str(), x.second.size(), b_is.props[x.first].size());
        if (asked("set property") && b_knows.props["State/17"] != set_value)
            c.fail("conversation", "property set by A differs at B");
        if (asked("process inquiry capabilities"))
            num("features", a_knows.features, b_is.features);
        if (asked("message report"))
            num("report", a_knows.report, b_is.report), num("report inquiry", b_knows.report, a_is.report);
        c.probe("conversations", 1);
        c.probe("conversation steps", steps.size());
        c.probe("conversation messages", messages);
        c.state(steps.size() * 1000 + losses + messages * 100000);
        c.nontrivial();
    }
};

void run(Ctx& c)
{
    const bool big = c.choose(8) == 7;
    switch (c.choose(5))
    {
    case 0: over_packets(c, big); break;
    case 1: over_bytes(c, big, c.choose(2)); break;
    case 2: over_bytes(c, big, 2); break;
    default:
    {
        Conversation v(c);
        v.run();
    }
    }
}
} // namespace

const Scenario& sim::scenario()
{
    static const Scenario s{ "C16",
                             "messages of all kinds with seeded fields over three transports, or a two-device conversation with message loss, duplication, delay and repetition; non-trivial: at least two "
                             "messages arrived or a conversation completed; distinct by hash of the complete event log",
                             run, 80000, false, "MIDI-CI factories and views, send_sysex7, sysex7_collector, midi1_byte_stream_parser, to_midi1_byte_stream",
                             "link, timers, application state machines of the two devices, third device",
                             "messages are lost as a whole; header texts contain no characters that need JSON escaping and no numbers with leading zeroes; data lengths fit their length fields" };
    return s;
}
