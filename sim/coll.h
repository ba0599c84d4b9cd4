// SysEx collectors next to their reference model; packetisation; packet links.
#pragma once
#include "world.h"

namespace sim {

//--------------------------------------------------------------------------
//! decoded SysEx data packet, by the UMP specification
struct Frag
{
    enum Form { complete, start, cont, end };
    Form    form;
    uint8_t group, stream;
    Bytes   payload;
};
template<int BITS>
std::optional<Frag> decode(const Packet& p)
{
    const uint32_t w    = p.data[0];
    const unsigned type = w >> 28, form = (w >> 20) & 0xF, n = (w >> 16) & 0xF;
    if (type != (BITS == 7 ? 3u : 5u) || form > 3)
        return std::nullopt;
    if (BITS == 7 ? n > 6 : (n < 1 || n > 14))
        return std::nullopt;
    Frag f;
    f.form   = Frag::Form(form);
    f.group  = (w >> 24) & 0xF;
    f.stream = BITS == 7 ? 0 : ump_byte(p, 2);
    f.payload.reserve(14);
    for (unsigned i = 0; i < (BITS == 7 ? n : n - 1); ++i)
        f.payload.push_back(ump_byte(p, (BITS == 7 ? 2 : 3) + i));
    return f;
}
template<int BITS>
Packet encode(const Frag& f)
{
    Packet p;
    p.data[0] = (BITS == 7 ? 0x30000000u : 0x50000000u) | (uint32_t(f.group) << 24) | (uint32_t(f.form) << 20) |
                (uint32_t(f.payload.size() + (BITS == 7 ? 0 : 1)) << 16);
    if (BITS == 8)
        set_ump_byte(p, 2, f.stream);
    for (unsigned i = 0; i < f.payload.size(); ++i)
        set_ump_byte(p, (BITS == 7 ? 2 : 3) + i, f.payload[i]);
    return p;
}

//--------------------------------------------------------------------------
//! meaning of the payload bytes of a complete run
struct Meaning
{
    bool complete_id = false;
    Msg  msg;
};
template<int BITS>
Meaning meaning(const Bytes& b)
{
    Meaning m;
    if (BITS == 7)
    {
        if (b.empty())
            return m;
        if (b[0])
        {
            m.complete_id = true;
            m.msg         = { uint32_t(b[0]) << 16, Bytes(b.begin() + 1, b.end()) };
        }
        else if (b.size() >= 3)
        {
            m.complete_id = true;
            m.msg         = { (uint32_t(b[1]) << 8) | b[2], Bytes(b.begin() + 3, b.end()) };
        }
    }
    else if (b.size() >= 2)
    {
        m.complete_id = true;
        m.msg.data.assign(b.begin() + 2, b.end());
        if (b[0] & 0x80)
            m.msg.man = (uint32_t(b[0] & 0x7F) << 8) | (b[1] & 0x7F);
        else if (b[0] == 0)
            m.msg.man = uint32_t(b[1] & 0x7F) << 16;
        else
            m.msg.man = 0; // reserved
    }
    return m;
}

//--------------------------------------------------------------------------

template<int BITS>
struct CollModel
{
    bool    in_run = false, limit_changed = false;
    uint8_t stream = 0;
    Bytes   bytes;
    size_t  limit = 0, least = 0; // in force now, smallest one while the message was under way

    struct Want
    {
        bool    must = false, may = false;
        Bytes   raw;
        uint8_t stream = 0;
    };
    void reset()
    {
        in_run = false;
        bytes.clear();
    }
    void set_limit(size_t l)
    {
        limit         = l;
        limit_changed = true; // of a message in progress
        if (l && (!least || l < least))
            least = l;
    }
    Want feed(const Packet& p)
    {
        Want w;
        auto f = decode<BITS>(p);
        if (!f)
            return w;
        switch (f->form)
        {
        case Frag::complete:
        case Frag::start:
            in_run        = true;
            limit_changed = false;
            least         = limit;
            stream        = f->stream;
            bytes         = f->payload;
            break;
        default:
            if (!in_run || (BITS == 8 && f->stream != stream))
                return w;
            bytes.insert(bytes.end(), f->payload.begin(), f->payload.end());
        }
        if (f->form == Frag::complete || f->form == Frag::end)
        {
            in_run          = false;
            const auto m    = meaning<BITS>(bytes);
            const bool fits = !limit || m.msg.data.size() <= limit;
            w.must          = !least || m.msg.data.size() <= least;
            w.may           = fits || limit_changed;
            w.raw           = bytes;
            w.stream        = stream;
        }
        return w;
    }
    uint64_t state_hash() const
    {
        return (uint64_t(in_run) << 40) | (uint64_t(stream) << 32) | (std::min<uint64_t>(bytes.size(), 3000) << 8) | std::min<uint64_t>(limit, 200);
    }
};

//--------------------------------------------------------------------------

template<int BITS>
struct CollTraits;
template<>
struct CollTraits<7>
{
    using collector = midi::sysex7_collector;
    using sysex     = midi::sysex7;
};
template<>
struct CollTraits<8>
{
    using collector = midi::sysex8_collector;
    using sysex     = midi::sysex8;
};

//! the collector of another group or port, on which something else goes on meanwhile
template<int BITS>
class OtherCollector
{
  public:
    explicit OtherCollector(uint64_t salt) : m_salt(salt)
    {
        if constexpr (BITS == 7)
            m_coll.set_callback([](const midi::sysex7&) {});
        else
            m_coll.set_callback([](const midi::sysex8&, uint8_t) {});
    }
    void go_on()
    {
        const uint64_t h = mix64(m_salt + ++m_n);
        if (h % 3)
            return;
        mem::App app;
        Frag     f;
        f.form   = decltype(f.form)((h >> 8) & 3);
        f.group  = uint8_t((h >> 12) & 15);
        f.stream = uint8_t(h >> 16);
        f.payload.resize((h >> 24) % (BITS == 7 ? 7 : 14));
        for (size_t i = 0; i < f.payload.size(); ++i)
            f.payload[i] = uint8_t(mix64(h + i) & (BITS == 7 ? 0x7F : 0xFF));
        m_coll.feed(encode<BITS>(f));
        if ((h >> 40) % 32 == 0)
            m_coll.reset();
        if ((h >> 40) % 32 == 1)
            m_coll.set_max_sysex_data_size((h >> 48) % 64);
    }

  private:
    typename CollTraits<BITS>::collector m_coll{ typename CollTraits<BITS>::collector::callback{} };
    uint64_t                             m_salt, m_n = 0;
};

template<int BITS>
class CollRig
{
  public:
    using Sysex = typename CollTraits<BITS>::sysex;

    explicit CollRig(Ctx& ctx) : c(ctx)
    {
        mem::Lib lib;
        coll.emplace(make_cb());
    }
    CollRig(const CollRig&) = delete;
    ~CollRig()
    {
        mem::Lib lib;
        coll.reset();
    }

    CollModel<BITS>                                model;
    std::optional<typename CollTraits<BITS>::collector> coll;
    std::function<int()>                           action; // as in ParserRig
    std::optional<OtherCollector<BITS>>            other;  // goes on between the packets and inside the callbacks
    std::function<std::optional<size_t>()>         limit_action;
    std::function<void(const Msg&, uint8_t)>       hook;
    std::function<void(const Sysex&)>              raw_hook;
    bool                                           callback_set     = true;
    bool                                           retry_allocation = true;
    uint64_t                                       delivered = 0, withheld = 0, throws = 0, app_resets = 0, alloc_failures = 0, dropped_on_alloc = 0;

    auto make_cb()
    {
        if constexpr (BITS == 7)
            return [this](const midi::sysex7& s) { on(s, 0); };
        else
            return [this](const midi::sysex8& s, uint8_t id) {
                if (coll->stream_id() != id && coll->stream_id() != 0) // 0: made ready for the next message already
                    c.fail("stream-id", "reported with stream id %u, stream_id() says %u", id, coll->stream_id());
                on(s, id);
            };
    }

    void feed(const Packet& p)
    {
        c.ev("feed", (uint64_t(p.data[0]) << 32) | p.data[1], (uint64_t(p.data[2]) << 32) | p.data[3]);
        m_obs.clear();
        m_threw         = false;
        std::optional<CollModel<BITS>> before;
        if (!retry_allocation)
            before = model;
        if (other)
            other->go_on();
        auto want       = model.feed(p);
        m_want          = &want;
        const bool in   = mem::in_lib;
        bool       lost = false;
        for (int attempt = 0;; ++attempt)
        {
            try
            {
                mem::in_lib = true;
                coll->feed(p);
                mem::in_lib = in;
                if (m_threw)
                    c.fail("exception-lost", "the application's exception did not reach the caller of feed");
            }
            catch (const AppError&)
            {
                mem::in_lib = in;
                if (!m_threw)
                    c.fail("exception-again", "an application exception was thrown a second time");
            }
            catch (const AppSignal&)
            {
                mem::in_lib = in;
                if (!m_threw)
                    c.fail("exception-again", "an application exception was thrown a second time");
            }
            catch (const std::bad_alloc&)
            {
                mem::in_lib = in;
                ++alloc_failures;
                c.fault("allocation failure");
                if (!m_obs.empty())
                    c.fail("alloc-after-report", "allocation failure reported after the message was delivered");
                if (retry_allocation && attempt < 6)
                    continue;
                lost = true;
            }
            break;
        }
        if (lost)
        {
            // the application gives up on this packet: as if it were lost on the link
            c.fault("packet given up after allocation failure");
            ++dropped_on_alloc;
            model = *before;
            want  = {};
            auto f = decode<BITS>(p);
            // a start that could not be stored may or may not have ended the run in progress
            if (f && (f->form == Frag::complete || f->form == Frag::start))
                ambiguous_until_start = true;
            return;
        }
        auto f = decode<BITS>(p);
        if (f && (f->form == Frag::complete || f->form == Frag::start))
            ambiguous_until_start = false;
        settle(want);
        c.state(model.state_hash());
    }
    bool ambiguous_until_start = false;

    void reset()
    {
        c.ev("reset");
        model.reset();
        mem::Lib lib;
        coll->reset();
    }
    void set_limit(size_t l)
    {
        c.ev("limit", l);
        mem::Lib lib;
        for (int i = 0;; ++i)
        {
            try
            {
                coll->set_max_sysex_data_size(l);
                break;
            }
            catch (const std::bad_alloc&)
            {
                mem::App app;
                ++alloc_failures;
                c.fault("allocation failure");
                if (i > 8)
                    throw;
            }
        }
        mem::App app;
        model.set_limit(l);
    }
    void set_callback(bool on)
    {
        c.ev("callback", on);
        mem::Lib lib;
        if (on)
            coll->set_callback(make_cb());
        else
            coll->set_callback({});
        callback_set = on;
    }

  private:
    struct Obs
    {
        Msg     m;
        uint8_t stream;
    };
    void on(const Sysex& s, uint8_t id)
    {
        mem::App app;
        Msg      m = to_msg(s);
        c.ev("sysex", hash(m), m.data.size(), id);
        m_obs.push_back({ m, id });
        if (m_obs.size() > 8)
            c.fail("endless", "%zu reports for one packet", m_obs.size());
        ++delivered;
        if (other)
        {
            other->go_on();
            if (!(to_msg(s) == m))
                c.fail("changed", "a message changed while the application looked at it");
        }
        if (hook)
            hook(m, id);
        if (raw_hook)
            raw_hook(s);
        if (limit_action)
            if (const auto l = limit_action())
            {
                c.fault("limit changed inside a callback");
                set_limit(*l);
            }
        if (!action)
            return;
        const int a = action();
        if (a & 2)
        {
            c.fault("callback resets");
            ++app_resets;
            model.reset();
            coll->reset();
        }
        if (a & 1)
        {
            c.fault("callback throws");
            ++throws;
            m_threw = true;
            app_throws(c);
        }
    }
    void settle(const typename CollModel<BITS>::Want& w)
    {
        c.check();
        if (!callback_set)
        {
            if (!m_obs.empty())
                c.fail("callback", "a removed callback was invoked");
            return;
        }
        if (ambiguous_until_start && m_obs.empty())
            return;
        if (m_obs.empty())
        {
            if (w.must)
                c.fail("missing", "message %s not reported", describe(w.raw).c_str());
            if (w.may == false && !w.raw.empty())
                ++withheld;
            return;
        }
        if (m_obs.size() > 1)
            c.fail("twice", "%zu messages reported for one packet", m_obs.size());
        const auto& o = m_obs[0];
        if (!w.may && w.raw.empty() && !w.must)
            c.fail("invented", "message %s reported, but no message was completed", str(o.m).c_str());
        if (!w.may)
            c.fail("over-limit", "message of %zu data bytes reported with limit %zu", o.m.data.size(), model.limit);
        const auto m = meaning<BITS>(w.raw);
        if (!m.complete_id)
        {
            if (!o.m.data.empty())
                c.fail("wrong", "message %s reported, but packets carried only %s", str(o.m).c_str(), hex(w.raw).c_str());
        }
        else if (!(o.m == m.msg))
            c.fail("wrong", "message %s reported, packets carried %s", str(o.m).c_str(), str(m.msg).c_str());
        if (BITS == 8 && o.stream != w.stream)
            c.fail("stream-id", "reported with stream id %u, sent with %u", o.stream, w.stream);
    }
    static std::string describe(const Bytes& raw)
    {
        const auto m = meaning<BITS>(raw);
        return m.complete_id ? str(m.msg) : "of " + std::to_string(raw.size()) + " bytes";
    }

    Ctx&                                    c;
    std::vector<Obs>                        m_obs;
    const typename CollModel<BITS>::Want*   m_want  = nullptr;
    bool                                    m_threw = false;
};

//--------------------------------------------------------------------------
//! the ways an application builds a message (which one follows from the message)
template<typename S>
S build_sysex(const Msg& m)
{
    const size_t n = m.data.size();
    const bool high = std::any_of(m.data.begin(), m.data.end(), [](uint8_t b) { return b > 127; });
    switch (hash(m) % (high ? 3 : 5))
    {
    case 1:
    {
        typename S::data_type d;
        d.assign(m.data.begin(), m.data.end());
        return S(m.man, std::move(d));
    }
    case 2:
    {
        S s(m.man, n / 2);
        s.data.insert(s.data.end(), m.data.begin(), m.data.end());
        return s;
    }
    case 3:
    case 4:
        if constexpr (std::is_same_v<S, midi::sysex7>)
        {
            // numbers, least significant seven bits first
            S      s(m.man);
            auto   at = [&](size_t i) { return uint32_t(m.data[i]); };
            size_t i  = 0;
            for (unsigned k = unsigned(hash(m) >> 20); i < n && i < 64; ++k)
                if (k % 5 == 0 && i + 5 <= n && at(i + 4) < 16)
                {
                    s.add_uint32(at(i) | at(i + 1) << 7 | at(i + 2) << 14 | at(i + 3) << 21 | at(i + 4) << 28);
                    i += 5;
                }
                else if (k % 5 == 1 && i + 4 <= n)
                {
                    s.add_uint28(at(i) | at(i + 1) << 7 | at(i + 2) << 14 | at(i + 3) << 21);
                    i += 4;
                }
                else if (k % 5 == 2 && i + 2 <= n)
                {
                    s.add_uint14(uint16_t(at(i) | at(i + 1) << 7));
                    i += 2;
                }
                else if (k % 5 == 3)
                {
                    const size_t l = std::min<size_t>(n - i, 1 + k % 9);
                    s.add_data(m.data.data() + i, l);
                    i += l;
                }
                else
                    s.add_uint7(m.data[i++]);
            if (i < n)
                s.add_data(m.data.data() + i, n - i);
            return s;
        }
    default:
        return make_sysex<S>(m);
    }
}

//! what the library's own predicates and readers tell about a message
template<typename S>
void examine(Ctx& c, const S& s, const Msg& m)
{
    c.check();
    const size_t n = m.data.size();
    if (s.empty() != (m.man == 0 && n == 0))
        c.fail("examine", "empty() is %d for %s", s.empty(), str(m).c_str());
    if (m.man && s.total_data_size() != n + (m.man & 0xFF0000 ? 1 : 3))
        c.fail("examine", "total_data_size() is %zu for %s", size_t(s.total_data_size()), str(m).c_str());
    const bool high = std::any_of(m.data.begin(), m.data.end(), [](uint8_t b) { return b > 127; });
    if (s.is_7bit() != !high || s.is_8bit() != high)
        c.fail("examine", "is_7bit() %d, is_8bit() %d for %s", s.is_7bit(), s.is_8bit(), str(m).c_str());
    {
        mem::Lib lib;
        S        same = make_sysex<S>(m);
        if (!(s == same) || s != same)
            c.fail("examine", "does not compare equal to the same message %s", str(m).c_str());
        Msg d = m;
        switch (hash(m) % 3)
        {
        case 0: d.data.push_back(0); break;
        case 1:
            if (n)
                d.data[(hash(m) >> 8) % n] ^= 1;
            else
                d.man ^= 0x020000;
            break;
        default: d.man ^= m.man & 0xFF0000 ? 0x020000 : 0x000002; break;
        }
        S other = make_sysex<S>(d);
        if (s == other || !(s != other))
            c.fail("examine", "compares equal to another message, %s and %s", str(m).c_str(), str(d).c_str());
    }
    if constexpr (std::is_same_v<S, midi::sysex7>)
    {
        if (s.is_valid() != (!high && !(m.man & 0xFF808080)))
            c.fail("examine", "is_valid() is %d for %s", s.is_valid(), str(m).c_str());
        if (!high)
            for (unsigned k = 0; k < 3; ++k)
            {
                auto at = [&](size_t i) { return uint32_t(m.data[i]); };
                auto i  = n ? (hash(m) >> (8 * k)) % n : 0;
                if (i + 2 <= n && s.make_uint14(i) != (at(i) | at(i + 1) << 7))
                    c.fail("examine", "make_uint14(%zu) is %x for %s", size_t(i), unsigned(s.make_uint14(i)), str(m).c_str());
                if (i + 4 <= n && s.make_uint28(i) != (at(i) | at(i + 1) << 7 | at(i + 2) << 14 | at(i + 3) << 21))
                    c.fail("examine", "make_uint28(%zu) is %x for %s", size_t(i), unsigned(s.make_uint28(i)), str(m).c_str());
                if (i + 5 <= n && s.make_uint32(i) != (at(i) | at(i + 1) << 7 | at(i + 2) << 14 | at(i + 3) << 21 | (at(i + 4) & 15) << 28))
                    c.fail("examine", "make_uint32(%zu) is %x for %s", size_t(i), unsigned(s.make_uint32(i)), str(m).c_str());
            }
    }
}

//! the packet as the library's view reads it, next to what it is
template<int BITS>
void read_through_view(Ctx& c, const Packet& p)
{
    c.check();
    const auto f    = decode<BITS>(p);
    auto       look = [&](const auto& v, const char* what) {
        const Packet copy = p;
        if (bool(v) != bool(f))
            c.fail("view", "%s %s a packet %s", what, v ? "accepts" : "refuses", str(copy).c_str());
        if (!v)
            return;
        bool ok = v->group() == f->group && unsigned(v->format()) == unsigned(f->form) && v->payload_size() == f->payload.size();
        for (size_t i = 0; ok && i < f->payload.size(); ++i)
            ok = v->payload_byte(i) == f->payload[i];
        if constexpr (BITS == 8)
            ok = ok && v->stream_id() == f->stream;
        if (!ok)
            c.fail("view", "%s reads %s wrongly", what, str(copy).c_str());
    };
    if constexpr (BITS == 7)
        look(midi::as_sysex7_packet_view(p), "as_sysex7_packet_view");
    else
        look(midi::as_sysex8_packet_view(p), "as_sysex8_packet_view");
    if (midi::is_sysex7_packet(p) != bool(decode<7>(p)) || midi::is_sysex8_packet(p) != bool(decode<8>(p)) || midi::is_data_message(p) != (p.data[0] >> 28 == 3) ||
        midi::is_extended_data_message(p) != (p.data[0] >> 28 == 5) || p.is_data_message() != (p.data[0] >> 28 == 3 || p.data[0] >> 28 == 5))
        c.fail("view", "a predicate is wrong for %s", str(p).c_str());
    if constexpr (BITS == 7)
        if (f)
        {
            const auto v = midi::as_sysex7_packet_view(p);
            if (v->status() != (p.data[0] >> 16 & 0xF0))
                c.fail("view", "status() of %s is %02x", str(p).c_str(), v->status());
        }
}

//! another implementation on top of the library's packet objects: any form, any amount of payload per packet
template<int BITS>
Packet build_packet(Ctx& c, const Frag& f, bool backwards)
{
    auto fill = [&](auto p) {
        if (backwards)
        {
            p.set_payload_size(f.payload.size());
            for (size_t i = f.payload.size(); i--;)
                p.set_payload_byte(i, f.payload[i]);
        }
        else
            for (auto b : f.payload)
                p.add_payload_byte(b);
        bool ok = p.payload_size() == f.payload.size() && unsigned(p.format()) == unsigned(f.form) && p.group() == f.group;
        for (size_t i = 0; ok && i < f.payload.size(); ++i)
            ok = p.payload_byte(i) == f.payload[i];
        if constexpr (BITS == 8)
        {
            ok = ok && p.stream_id() == f.stream;
            if (backwards)
            {
                p.set_stream_id(uint8_t(~f.stream));
                p.set_stream_id(f.stream);
            }
        }
        const Packet r = p;
        if (!ok || !same_words(r, encode<BITS>(f)))
            c.fail("packet", "built %s, expected %s", str(r).c_str(), str(encode<BITS>(f)).c_str());
        return r;
    };
    // made by a factory, with as few arguments as possible or not, or by a constructor
    const uint32_t how = c.choose(4);
    if constexpr (BITS == 7)
    {
        auto made = [&](auto factory, midi::status_t st) {
            if (how == 3)
                return fill(midi::sysex7_packet(st, f.group));
            if (how == 2)
            {
                midi::sysex7_packet q;
                static_cast<midi::data_message&>(q) = midi::data_message(st);
                q.set_group(f.group);
                return fill(q);
            }
            return fill(factory());
        };
        const bool brief = how == 1 && f.group == 0;
        switch (f.form)
        {
        case Frag::complete: return made([&] { return brief ? midi::make_sysex7_complete_packet() : midi::make_sysex7_complete_packet(f.group); }, midi::data_status::sysex7_complete);
        case Frag::start: return made([&] { return brief ? midi::make_sysex7_start_packet() : midi::make_sysex7_start_packet(f.group); }, midi::data_status::sysex7_start);
        case Frag::cont: return made([&] { return brief ? midi::make_sysex7_continue_packet() : midi::make_sysex7_continue_packet(f.group); }, midi::data_status::sysex7_continue);
        default: return made([&] { return brief ? midi::make_sysex7_end_packet() : midi::make_sysex7_end_packet(f.group); }, midi::data_status::sysex7_end);
        }
    }
    else
    {
        auto made = [&](auto factory, midi::status_t st) {
            if (how == 3)
                return fill(midi::sysex8_packet(st, f.stream, f.group));
            if (how == 2)
            {
                midi::sysex8_packet q;
                if (f.form)
                {
                    static_cast<midi::extended_data_message&>(q) = midi::extended_data_message(midi::status_t(st | 1));
                }
                q.set_stream_id(f.stream);
                q.set_group(f.group);
                return fill(q);
            }
            return fill(factory());
        };
        const bool brief = how == 1 && f.group == 0;
        switch (f.form)
        {
        case Frag::complete: return made([&] { return brief ? midi::make_sysex8_complete_packet(f.stream) : midi::make_sysex8_complete_packet(f.stream, f.group); }, midi::extended_data_status::sysex8_complete);
        case Frag::start: return made([&] { return brief ? midi::make_sysex8_start_packet(f.stream) : midi::make_sysex8_start_packet(f.stream, f.group); }, midi::extended_data_status::sysex8_start);
        case Frag::cont: return made([&] { return brief ? midi::make_sysex8_continue_packet(f.stream) : midi::make_sysex8_continue_packet(f.stream, f.group); }, midi::extended_data_status::sysex8_continue);
        default: return made([&] { return brief ? midi::make_sysex8_end_packet(f.stream) : midi::make_sysex8_end_packet(f.stream, f.group); }, midi::extended_data_status::sysex8_end);
        }
    }
}
template<int BITS>
std::vector<Packet> foreign_packets(Ctx& c, const Msg& m, uint8_t group, uint8_t stream)
{
    Bytes all = BITS == 7 ? man_bytes7(m.man) : man_bytes8(m.man);
    all.insert(all.end(), m.data.begin(), m.data.end());
    const size_t        most = 1 + c.choose(BITS == 7 ? 6 : 13);
    const bool          vary = c.choose(2), backwards = c.choose(2), early_start = c.choose(3) == 2, late_end = c.choose(3) == 2;
    std::vector<Frag>   v;
    size_t              pos = 0;
    if (early_start)
        v.push_back({ Frag::start, group, stream, {} });
    for (unsigned k = 0; pos < all.size(); ++k)
    {
        const size_t n = std::min<size_t>(vary ? mix64(pos * 77 + k) % (most + 1) : most, all.size() - pos);
        v.push_back({ Frag::cont, group, stream, Bytes(all.begin() + pos, all.begin() + pos + n) });
        pos += n;
    }
    if (late_end)
        v.push_back({ Frag::end, group, stream, {} });
    v.front().form = v.size() == 1 ? Frag::complete : Frag::start;
    if (v.size() > 1)
        v.back().form = Frag::end;
    std::vector<Packet> r;
    for (auto& f : v)
        r.push_back(build_packet<BITS>(c, f, backwards));
    c.ev("foreign send", hash(m), r.size(), (uint64_t(group) << 8) | stream);
    return r;
}

//--------------------------------------------------------------------------
//! the sender: the library's packetisation, checked for form
template<int BITS>
std::vector<Packet> packetise(Ctx& c, const Msg& m, uint8_t group, uint8_t stream, bool check_form = true, std::function<void()> in_between = {}, size_t fail_at = SIZE_MAX)
{
    using Sysex = typename CollTraits<BITS>::sysex;
    std::vector<Packet> sent, listed;
    // in_between: what the application does in the middle of sending; fail_at: the transport throws instead of taking this packet
    const size_t at     = in_between ? c.choose(m.data.size() < 12 ? 2 : 6) : SIZE_MAX;
    const bool   before = in_between && c.choose(2);
    auto         out = [&](const Packet& p) {
        mem::App a;
        if (sent.size() == fail_at)
            throw AppError{};
        if (sent.size() == at && before)
            in_between();
        sent.push_back(p);
        if (sent.size() == at + 1 && !before)
            in_between();
    };
    if (fail_at != SIZE_MAX)
    {
        check_form = false;
        try
        {
            mem::Lib lib;
            Sysex    s = build_sysex<Sysex>(m);
            if constexpr (BITS == 7)
                midi::send_sysex7(s, group, out);
            else
                midi::send_sysex8(s, stream, group, out);
        }
        catch (const AppError&)
        {
            c.fault("transport failed");
        }
        c.ev("send failed", hash(m), sent.size(), (uint64_t(group) << 8) | stream);
        return sent;
    }
    {
        mem::Lib lib;
        Sysex    s = build_sysex<Sysex>(m);
        if constexpr (BITS == 7)
        {
            midi::send_sysex7(s, group, out);
            auto v = group == 0 ? midi::as_sysex7_packets(s) : midi::as_sysex7_packets(s, group);
            mem::App a;
            for (auto& p : v)
                listed.push_back(p);
        }
        else
        {
            midi::send_sysex8(s, stream, group, out);
            auto v = group == 0 ? midi::as_sysex8_packets(s, stream) : midi::as_sysex8_packets(s, stream, group);
            mem::App a;
            for (auto& p : v)
                listed.push_back(p);
        }
    }
    c.ev("send", hash(m), sent.size(), (uint64_t(group) << 8) | stream);
    c.text("  message %s on group %u stream %u", str(m).c_str(), group, stream);
    if (!check_form)
        return sent;
    if (listed.size() != sent.size())
        c.fail("senders-differ", "%zu packets sent, %zu listed", sent.size(), listed.size());
    Bytes all;
    for (size_t i = 0; i < sent.size(); ++i)
    {
        c.check();
        if (!same_words(sent[i], listed[i]))
            c.fail("senders-differ", "packet %zu sent as %s, listed as %s", i, str(sent[i]).c_str(), str(listed[i]).c_str());
        auto f = decode<BITS>(sent[i]);
        if (!f)
            c.fail("form", "packet %zu of %zu is no SysEx packet: %s", i, sent.size(), str(sent[i]).c_str());
        if (f->group != group)
            c.fail("form", "packet %zu on group %u instead of %u", i, f->group, group);
        if (BITS == 8 && f->stream != stream)
            c.fail("form", "packet %zu with stream id %u instead of %u", i, f->stream, stream);
        const auto expect = sent.size() == 1 ? Frag::complete : i == 0 ? Frag::start : i + 1 == sent.size() ? Frag::end : Frag::cont;
        if (f->form != expect)
            c.fail("form", "packet %zu of %zu has form %d, expected %d (message of %zu data bytes)", i, sent.size(), f->form, expect, m.data.size());
        if (f->payload.empty())
            c.fail("form", "packet %zu of %zu is empty", i, sent.size());
        all.insert(all.end(), f->payload.begin(), f->payload.end());
    }
    Bytes want = BITS == 7 ? man_bytes7(m.man) : man_bytes8(m.man);
    want.insert(want.end(), m.data.begin(), m.data.end());
    if (all != want)
        c.fail("payload", "packets carry %s, message has %s", hex(all).c_str(), hex(want).c_str());
    return sent;
}

//--------------------------------------------------------------------------
//! packet link faults
struct PacketLink
{
    uint32_t loss = 0, dup = 0, reorder = 0, truncate = 0, corrupt = 0; // per mille
    uint32_t burst = 0;

    void draw_rates(Ctx& c)
    {
        auto rate = [&] { return c.choose(2) ? c.pick({ 15u, 60u, 200u }) : 0u; };
        loss      = rate();
        dup       = rate();
        reorder   = rate();
        truncate  = rate();
        corrupt   = rate();
        burst     = c.choose(3) == 2 ? 20 : 0;
    }

    //! what arrives of a sequence of packets
    template<int BITS>
    std::vector<Packet> carry(Ctx& c, std::vector<Packet> v) const
    {
        // for long messages faults fall on a bounded number of seeded positions
        const size_t        n = v.size();
        std::vector<size_t> points;
        if (n <= 48)
            for (size_t i = 0; i < n; ++i)
                points.push_back(i);
        else
        {
            for (size_t i = 0; i < 8; ++i)
                points.push_back(i);
            for (size_t i = 0; i < 8; ++i)
                points.push_back(c.choose(uint32_t(n)));
            for (size_t i = n - 8; i < n; ++i)
                points.push_back(i);
        }
        std::vector<uint8_t> drop(n), twice(n);
        for (auto i : points)
        {
            if (loss && c.pm(loss))
            {
                drop[i] = 1;
                c.fault("packet lost");
            }
            if (dup && c.pm(dup))
            {
                twice[i] = 1;
                c.fault("packet duplicated");
            }
            if (truncate && c.pm(truncate))
            {
                auto f = decode<BITS>(v[i]);
                if (f && !f->payload.empty())
                {
                    f->payload.resize(c.choose(uint32_t(f->payload.size())));
                    v[i] = encode<BITS>(*f);
                    c.fault("packet truncated");
                }
            }
            if (corrupt && c.pm(corrupt))
            {
                c.fault("packet corrupted");
                switch (c.choose(4))
                {
                case 0: // form
                    v[i].data[0] = (v[i].data[0] & ~0x00F00000u) | (c.choose(6) << 20);
                    break;
                case 1: // size
                    v[i].data[0] = (v[i].data[0] & ~0x000F0000u) | (c.choose(16) << 16);
                    if (BITS == 7)
                        for (unsigned k = 2; k < 8; ++k)
                            set_ump_byte(v[i], k, ump_byte(v[i], k) & 0x7F);
                    break;
                case 2: // payload
                {
                    const unsigned k = 2 + c.choose(BITS == 7 ? 6 : 14);
                    set_ump_byte(v[i], k, uint8_t(c.choose(BITS == 7 ? 128 : 256)));
                    break;
                }
                default: // another message type
                    v[i].data[0] = (v[i].data[0] & 0x0FFFFFFFu) | (c.choose(16) << 28);
                    break;
                }
            }
            if (burst && c.pm(burst))
            {
                const size_t len = 1 + c.choose(5);
                for (size_t k = i; k < std::min(n, i + len); ++k)
                    drop[k] = 1;
                c.fault("burst loss");
            }
        }
        std::vector<Packet> r;
        for (size_t i = 0; i < n; ++i)
        {
            if (!drop[i])
                r.push_back(v[i]);
            if (twice[i])
                r.push_back(v[i]);
        }
        if (reorder && r.size() > 1)
            for (int k = 0; k < 3; ++k)
                if (c.pm(reorder))
                {
                    const size_t i = c.choose(uint32_t(r.size())), j = c.choose(8) ? std::min(i + 1, r.size() - 1) : c.choose(uint32_t(r.size()));
                    std::swap(r[i], r[j]);
                    c.fault("packets reordered");
                }
        return r;
    }
};

//! a hand made packet of the SysEx type, any form and size
template<int BITS>
Packet gen_frag(Ctx& c, uint8_t group, uint8_t stream)
{
    Frag f;
    f.form   = Frag::Form(c.choose(4));
    f.group  = group;
    f.stream = stream;
    f.payload = gen_content(c, c.choose(BITS == 7 ? 7 : 14), BITS == 7 ? 0x7F : 0xFF);
    if (!f.payload.empty() && c.choose(2))
        f.payload[0] = BITS == 7 ? uint8_t(c.choose(3) ? 0 : 0x7D) : c.pick({ uint8_t(0), uint8_t(0x81), uint8_t(1) });
    return encode<BITS>(f);
}

} // namespace sim
