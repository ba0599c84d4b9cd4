// MIDI-CI and universal SysEx: every factory with seeded values, every view with its domain.
#pragma once
#include "coll.h"
#include <midi/capability_inquiry.h>
#include <midi/universal_sysex.h>

namespace sim {

namespace ci = midi::ci;
namespace pe = midi::ci::property_exchange;
namespace us = midi::universal_sysex;
using midi::sysex7;

template<typename V>
struct Tag
{
    using type = V;
};

//! every checked view: name, category (byte 2), subtypes it stands for
template<typename F>
void for_each_view(F&& f)
{
    using L = std::initializer_list<uint8_t>;
    f(Tag<ci::discovery_inquiry_view>{}, "discovery_inquiry_view", L{ 0x70 });
    f(Tag<ci::discovery_reply_view>{}, "discovery_reply_view", L{ 0x71 });
    f(Tag<ci::endpoint_information_inquiry_view>{}, "endpoint_information_inquiry_view", L{ 0x72 });
    f(Tag<ci::endpoint_information_reply_view>{}, "endpoint_information_reply_view", L{ 0x73 });
    f(Tag<ci::ack_view>{}, "ack_view", L{ 0x7D });
    f(Tag<ci::invalidate_muid_view>{}, "invalidate_muid_view", L{ 0x7E });
    f(Tag<ci::nak_view>{}, "nak_view", L{ 0x7F });
    f(Tag<ci::profile_inquiry_view>{}, "profile_inquiry_view", L{ 0x20 });
    f(Tag<ci::profile_inquiry_reply_view>{}, "profile_inquiry_reply_view", L{ 0x21 });
    f(Tag<ci::profile_id_view>{}, "profile_id_view", L{ 0x22, 0x23, 0x24, 0x25, 0x26, 0x27 });
    f(Tag<ci::profile_destination_view>{}, "profile_destination_view", L{ 0x22, 0x23, 0x24, 0x25 });
    f(Tag<ci::profile_details_inquiry_view>{}, "profile_details_inquiry_view", L{ 0x28 });
    f(Tag<ci::profile_details_reply_view>{}, "profile_details_reply_view", L{ 0x29 });
    f(Tag<ci::profile_specific_data_view>{}, "profile_specific_data_view", L{ 0x2F });
    f(Tag<ci::property_exchange_capabilities_view>{}, "property_exchange_capabilities_view", L{ 0x30, 0x31 });
    f(Tag<pe::property_data_message_view>{}, "property_data_message_view", L{ 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3F });
    f(Tag<ci::get_property_data_view>{}, "get_property_data_view", L{ 0x34, 0x35 });
    f(Tag<ci::set_property_data_view>{}, "set_property_data_view", L{ 0x36, 0x37 });
    f(Tag<ci::subscription_view>{}, "subscription_view", L{ 0x38, 0x39 });
    f(Tag<ci::notify_view>{}, "notify_view", L{ 0x3F });
    f(Tag<ci::process_inquiry_capabilities_reply_view>{}, "process_inquiry_capabilities_reply_view", L{ 0x41 });
    f(Tag<ci::midi_message_report_inquiry_view>{}, "midi_message_report_inquiry_view", L{ 0x42 });
    f(Tag<ci::midi_message_report_reply_view>{}, "midi_message_report_reply_view", L{ 0x43 });
}

struct CiMsg
{
    const char*                                      kind = "";
    sysex7                                           m;
    bool                                             has_view = true; // a view accepts this message
    std::function<void(Ctx&, const sysex7&)>         verify;
};

template<typename A, typename B>
void field(Ctx& c, const char* kind, const char* name, const A& got, const B& want)
{
    c.check();
    if (!(uint64_t(got) == uint64_t(want)))
        c.fail("field", "%s: %s is %llx at the receiver, was %llx", kind, name, (unsigned long long)got, (unsigned long long)want);
}
inline void range_is(Ctx& c, const char* kind, const char* name, const uint8_t* p, size_t n, const Bytes& want)
{
    c.check();
    if (n != want.size() || !std::equal(want.begin(), want.end(), p))
        c.fail("field", "%s: %s has %zu bytes %s at the receiver, was %zu bytes %s", kind, name, n, hex(p, n).c_str(), want.size(), hex(want).c_str());
}
inline void profile_is(Ctx& c, const char* kind, const ci::profile_id& got, const ci::profile_id& want)
{
    c.check();
    if (got.byte1 != want.byte1 || got.byte2 != want.byte2 || got.byte3 != want.byte3 || got.byte4 != want.byte4 || got.byte5 != want.byte5)
        c.fail("field", "%s: profile differs", kind);
}
template<typename V>
V must(Ctx& c, const char* kind, const sysex7& s)
{
    auto v = ci::as<V>(s);
    if (!v)
        c.fail("not-recognised", "%s of %zu bytes not recognised at the receiver", kind, s.data.size());
    auto m = midi::as_universal_sysex_view(s);
    if (!m || !m->template as<V>())
        c.fail("not-recognised", "%s not recognised as universal SysEx", kind);
    return *v;
}

struct CiHead
{
    uint32_t src, dst;
    uint8_t  dev;
};
inline uint32_t gen_muid(Ctx& c) { return c.choose(4) ? c.choose(1u << 28) : c.pick({ 0u, 0x0FFFFFFFu, 1u, 0x7Fu, 0x80u, 0x3FFFu, 0x4000u, 0x200000u, 0x0FFFFF00u }); }
inline uint8_t  gen_u7(Ctx& c) { return c.choose(3) ? uint8_t(c.choose(128)) : c.pick({ uint8_t(0), uint8_t(0x7F), uint8_t(1), uint8_t(0x40) }); }
inline uint16_t gen_u14(Ctx& c) { return c.choose(3) ? uint16_t(c.choose(1u << 14)) : c.pick({ uint16_t(0), uint16_t(0x3FFF), uint16_t(0x7F), uint16_t(0x80), uint16_t(0x100) }); }
inline CiHead   gen_head(Ctx& c) { return { gen_muid(c), gen_muid(c), c.choose(3) ? uint8_t(0x7F) : gen_u7(c) }; }
inline ci::profile_id gen_profile(Ctx& c)
{
    if (c.choose(16) == 15)
    {
        const ci::profile_id p;
        if (p.byte1 != 0x7E || p.byte2 || p.byte3 || p.byte4 || p.byte5)
            c.fail("field", "the initial profile id is wrong");
        return p;
    }
    const ci::profile_id p{ gen_u7(c), gen_u7(c), gen_u7(c), gen_u7(c), gen_u7(c) };
    ci::profile_id       q = p;
    if (!(p == q))
        c.fail("field", "a profile id differs from itself");
    uint8_t* const parts[] = { &q.byte1, &q.byte2, &q.byte3, &q.byte4, &q.byte5 };
    *parts[c.choose(5)] ^= uint8_t(1u << c.choose(7));
    if (p == q)
        c.fail("field", "different profile ids compare equal");
    return p;
}
inline std::string    gen_text(Ctx& c, uint32_t n)
{
    static const char chars[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 -_/.:,+";
    std::string       s;
    const uint32_t    salt = c.choose(1u << 16);
    for (uint32_t i = 0; i < n; ++i)
        s += chars[mix64((uint64_t(salt) << 20) + i) % (sizeof chars - 1)];
    return s;
}
inline Bytes bytes_of(std::string_view s) { return Bytes(s.begin(), s.end()); }

inline void head_is(Ctx& c, const char* kind, const sysex7& s, const CiHead& h, uint8_t subtype, uint8_t version = 2)
{
    auto v = midi::as_capability_inquiry_view(s);
    if (!v)
        c.fail("not-recognised", "%s not recognised as MIDI-CI message", kind);
    field(c, kind, "source MUID", v->source_muid(), h.src);
    field(c, kind, "destination MUID", v->destination_muid(), h.dst);
    field(c, kind, "device id", v->device_id(), h.dev);
    field(c, kind, "subtype", v->subtype(), subtype);
    field(c, kind, "version", v->message_version(), version);
    field(c, kind, "type", v->type(), us::type::capability_inquiry);
    field(c, kind, "type", midi::universal_sysex_type_of(s), us::type::capability_inquiry);
    field(c, kind, "subtype", midi::universal_sysex_subtype_of(s), subtype);
    field(c, kind, "device id", midi::universal_sysex_device_id_of(s), h.dev);
    if (!midi::is_capability_inquiry_message(s) || !midi::is_universal_sysex_message(s))
        c.fail("not-recognised", "%s not recognised", kind);
}

//! reference rendering of a property exchange header
inline std::string ref_json(std::string_view key, const std::string* sval, int ival, const std::vector<std::pair<std::string, std::string>>& opts)
{
    std::string r = "{\"" + std::string(key) + "\":" + (sval ? "\"" + *sval + "\"" : std::to_string(ival));
    for (auto& o : opts)
    {
        bool number = !o.second.empty();
        for (size_t i = 0; i < o.second.size(); ++i)
            if (!(o.second[i] >= '0' && o.second[i] <= '9') && !(i == 0 && o.second[i] == '-' && o.second.size() > 1))
                number = false;
        r += ",\"" + o.first + "\":" + (number ? o.second : "\"" + o.second + "\"");
    }
    return r + "}";
}

inline uint32_t gen_ci_size(Ctx& c, bool big)
{
    switch (c.weighted({ 10, 4, 3, big ? 2u : 0u }))
    {
    case 0: return c.choose(20);
    case 1: return c.pick({ 126u, 127u, 128u, 129u, 255u, 256u, 257u, 0u, 512u });
    case 2: return c.choose(700);
    default: return c.choose(2) ? c.pick({ 16383u, 16382u, 16383u - 127u, 8192u, 4096u, 16256u }) : c.range(700, 16383);
    }
}

inline void pe_is(Ctx& c, const char* kind, const pe::property_data_message_view& v, uint8_t req, const Bytes& header, uint16_t n, uint16_t k, const Bytes& chunk)
{
    field(c, kind, "request id", v.request_id(), req);
    field(c, kind, "header size", v.header_size(), header.size());
    range_is(c, kind, "header", v.header_begin(), size_t(v.header_end() - v.header_begin()), header);
    field(c, kind, "number of chunks", v.number_of_chunks(), n);
    field(c, kind, "number of this chunk", v.number_of_this_chunk(), k);
    field(c, kind, "chunk size", v.chunk_size(), chunk.size());
    range_is(c, kind, "chunk", v.chunk_begin(), size_t(v.chunk_end() - v.chunk_begin()), chunk);
}

inline constexpr uint32_t ci_kinds = 42;

//! message number `kind` with seeded contents
//! arguments that have their default value are given or left out
#define CI_D(f, ...) (brief && h.dev == 0x7F ? f(__VA_ARGS__) : f(__VA_ARGS__, h.dev))
#define CI_RD(f, ...) (brief && h.dev == 0x7F ? (req == 0 ? f(__VA_ARGS__) : f(__VA_ARGS__, req)) : f(__VA_ARGS__, req, h.dev))
inline CiMsg gen_ci(Ctx& c, uint32_t kind, const CiHead& h, bool big)
{
    CiMsg      r;
    const bool brief = c.choose(2);
    auto  identity = [&] {
        return midi::device_identity{ midi::manufacturer_t(gen_manufacturer(c)), gen_u14(c), gen_u14(c), gen_muid(c) };
    };
    auto identity_is = [](Ctx& c, const char* kind, const midi::device_identity& a, const midi::device_identity& b) {
        field(c, kind, "manufacturer", a.manufacturer, b.manufacturer);
        field(c, kind, "family", a.family, b.family);
        field(c, kind, "model", a.model, b.model);
        field(c, kind, "revision", a.revision, b.revision);
    };
    constexpr uint32_t bc = 0x0FFFFFFF;
    auto options = [&] {
        std::vector<std::pair<std::string, std::string>> o;
        for (uint32_t n = c.choose(30) == 29 ? c.choose(40) : c.choose(4); n; --n)
        {
            std::string v;
            switch (c.choose(5))
            {
            case 0: v = gen_text(c, c.choose(12)); break;
            case 1: v = std::to_string(c.choose(100000)); break;
            case 2: v = (c.choose(3) ? "-" : "") + std::to_string(1 + c.choose(1000));
                if (c.choose(4) == 3) // long numbers
                    for (uint32_t k = 1 + c.choose(24); k; --k)
                        v += char('0' + c.choose(10));
                break;
            case 3: v = c.pick({ std::string(""), std::string("-"), std::string("--1"), std::string("1-"), std::string("a1") }); break;
            default: v = gen_text(c, 1 + c.choose(5)) + "x"; break;
            }
            if (v.size() > 1 && v[0] == '0')
                v = "z" + v; // no leading zeroes: neither number nor text
            if (v.size() > 2 && v[0] == '-' && v[1] == '0')
                v = "z" + v;
            o.emplace_back(gen_text(c, 1 + c.choose(10)), v);
        }
        return o;
    };
    auto as_options = [](const std::vector<std::pair<std::string, std::string>>& o) {
        pe::header_options r;
        for (auto& x : o)
            r.emplace_back(std::string_view(x.first), std::string_view(x.second));
        return r;
    };
    switch (kind)
    {
    case 0:
    case 1:
    {
        const bool    v1   = kind == 1;
        const auto    id   = identity();
        const uint8_t cat  = gen_u7(c), path = brief ? uint8_t(0) : gen_u7(c);
        const auto    max  = gen_muid(c);
        r.kind             = v1 ? "discovery inquiry v1" : "discovery inquiry";
        r.m                = v1 ? ci::make_discovery_inquiry_v1(h.src, id, cat, max) : path == 0 && brief ? ci::make_discovery_inquiry(h.src, id, cat, max) : ci::make_discovery_inquiry(h.src, id, cat, max, path);
        r.verify           = [=](Ctx& c, const sysex7& s) {
            head_is(c, "discovery inquiry", s, { h.src, bc, 0x7F }, 0x70, v1 ? 1 : 2);
            auto v = must<ci::discovery_inquiry_view>(c, "discovery inquiry", s);
            identity_is(c, "discovery inquiry", v.identity(), id);
            field(c, "discovery inquiry", "categories", v.categories(), cat);
            field(c, "discovery inquiry", "maximum message size", v.maximum_message_size(), max);
            field(c, "discovery inquiry", "output path id", v.output_path_id(), v1 ? 0 : path);
        };
        break;
    }
    case 2:
    case 3:
    {
        const bool    v1  = kind == 3;
        const auto    id  = identity();
        const uint8_t cat = gen_u7(c), path = gen_u7(c), fb = brief ? uint8_t(0x7F) : gen_u7(c);
        const auto    max = gen_muid(c);
        r.kind            = v1 ? "discovery reply v1" : "discovery reply";
        r.m               = v1 ? ci::make_discovery_reply_v1(h.src, h.dst, id, cat, max) : brief ? ci::make_discovery_reply(h.src, h.dst, id, cat, max, path) : ci::make_discovery_reply(h.src, h.dst, id, cat, max, path, fb);
        r.verify          = [=](Ctx& c, const sysex7& s) {
            head_is(c, "discovery reply", s, { h.src, h.dst, 0x7F }, 0x71, v1 ? 1 : 2);
            auto v = must<ci::discovery_reply_view>(c, "discovery reply", s);
            identity_is(c, "discovery reply", v.identity(), id);
            field(c, "discovery reply", "categories", v.categories(), cat);
            field(c, "discovery reply", "maximum message size", v.maximum_message_size(), max);
            field(c, "discovery reply", "output path id", v.output_path_id(), v1 ? 0 : path);
            field(c, "discovery reply", "function block", v.function_block(), v1 ? 0x7F : fb);
        };
        break;
    }
    case 4:
    {
        const uint8_t st = gen_u7(c);
        r.kind           = "endpoint information inquiry";
        r.m              = ci::make_endpoint_information_inquiry(h.src, h.dst, st);
        r.verify         = [=](Ctx& c, const sysex7& s) {
            head_is(c, "endpoint information inquiry", s, { h.src, h.dst, 0x7F }, 0x72);
            field(c, "endpoint information inquiry", "status", must<ci::endpoint_information_inquiry_view>(c, "endpoint information inquiry", s).status(), st);
        };
        break;
    }
    case 5:
    {
        const uint8_t st = gen_u7(c);
        const Bytes   d  = gen_content(c, gen_ci_size(c, big), 0x7F);
        r.kind           = "endpoint information reply";
        r.m              = ci::make_endpoint_information_reply(h.src, h.dst, st, d.data(), d.size());
        r.verify         = [=](Ctx& c, const sysex7& s) {
            head_is(c, "endpoint information reply", s, { h.src, h.dst, 0x7F }, 0x73);
            auto v = must<ci::endpoint_information_reply_view>(c, "endpoint information reply", s);
            field(c, "endpoint information reply", "status", v.status(), st);
            range_is(c, "endpoint information reply", "information data", v.information_data(), v.information_data_length(), d);
        };
        break;
    }
    case 6:
    case 7:
    case 8:
    {
        uint8_t     d[8];
        for (auto& x : d)
            x = gen_u7(c);
        const std::string t  = gen_text(c, gen_ci_size(c, big));
        const bool        to = kind == 8; // nak made from the message it answers
        const uint8_t     sub = kind == 6 ? 0x7D : 0x7F;
        const char*       k   = kind == 6 ? "ack" : "nak";
        r.kind                = k;
        CiHead want           = h;
        if (kind == 6)
            r.m = ci::make_ack_message(h.src, h.dst, h.dev, d[0], d[1], d[2], d + 3, t);
        else if (!to)
            r.m = ci::make_nak_message(h.src, h.dst, h.dev, d[0], d[1], d[2], d + 3, t);
        else
        {
            sysex7 q = CI_D(ci::make_profile_inquiry_message, h.src, h.dst);
            d[0]     = 0x20;
            r.m      = ci::make_nak_message(*midi::as_capability_inquiry_view(q), d[1], d[2], d + 3, t);
            want     = { h.dst, h.src, h.dev };
        }
        const Bytes dd(d, d + 8);
        r.verify = [=](Ctx& c, const sysex7& s) {
            head_is(c, k, s, want, sub);
            auto check = [&](const ci::nack::view& v) {
                field(c, k, "transaction", v.transaction(), dd[0]);
                field(c, k, "status code", v.status_code(), dd[1]);
                field(c, k, "status data", v.status_data(), dd[2]);
                range_is(c, k, "details", v.details(), 5, Bytes(dd.begin() + 3, dd.end()));
                range_is(c, k, "message", v.message_data(), v.message_length(), bytes_of(t));
                if (v.message() != t)
                    c.fail("field", "%s: message text differs", k);
            };
            if (sub == 0x7D)
                check(must<ci::ack_view>(c, k, s));
            else
                check(must<ci::nak_view>(c, k, s));
        };
        break;
    }
    case 9:
    case 10:
    {
        r.kind     = "nak v1";
        r.has_view = false;
        CiHead want = h;
        if (kind == 9)
            r.m = ci::make_nak_message_v1(h.src, h.dst, h.dev);
        else
        {
            sysex7 q = CI_D(ci::make_profile_inquiry_message, h.src, h.dst);
            r.m      = ci::make_nak_message_v1(*midi::as_capability_inquiry_view(q));
            want     = { h.dst, h.src, h.dev };
        }
        r.verify = [=](Ctx& c, const sysex7& s) { head_is(c, "nak v1", s, want, 0x7F, 1); };
        break;
    }
    case 11:
    {
        const auto t = gen_muid(c);
        r.kind       = "invalidate MUID";
        r.m          = ci::make_invalidate_muid_message(h.src, t);
        r.verify     = [=](Ctx& c, const sysex7& s) {
            head_is(c, "invalidate MUID", s, { h.src, bc, 0x7F }, 0x7E);
            field(c, "invalidate MUID", "target", must<ci::invalidate_muid_view>(c, "invalidate MUID", s).target_muid(), t);
        };
        break;
    }
    case 12:
        r.kind   = "profile inquiry";
        r.m      = CI_D(ci::make_profile_inquiry_message, h.src, h.dst);
        r.verify = [=](Ctx& c, const sysex7& s) {
            head_is(c, "profile inquiry", s, h, 0x20);
            must<ci::profile_inquiry_view>(c, "profile inquiry", s);
        };
        break;
    case 13:
    {
        std::vector<ci::profile_id> e, d;
        const uint32_t              cap = big && c.choose(6) == 5 ? c.pick({ 300u, 3400u, 13200u, 16384u }) : 30;
        auto                        many = [&] { return cap > 30 && c.choose(3) ? cap - 1 - c.choose(c.choose(2) ? 130 : cap) : c.choose(3) ? c.choose(6) : c.choose(cap); };
        for (uint32_t n = many(); n; --n)
            e.push_back(n > 10 ? ci::profile_id{ 1, uint8_t(n & 0x7F), uint8_t((n >> 7) & 0x7F), 3, 4 } : gen_profile(c));
        for (uint32_t n = many(); n; --n)
            d.push_back(n > 10 ? ci::profile_id{ 2, uint8_t(n & 0x7F), uint8_t((n >> 7) & 0x7F), 3, 5 } : gen_profile(c));
        r.kind   = "profile inquiry reply";
        r.m      = c.choose(2) ? CI_D(ci::make_profile_inquiry_reply, h.src, h.dst, e, d)
                               : CI_D(ci::make_profile_inquiry_reply, h.src, h.dst, e.data(), uint16_t(e.size()), d.data(), uint16_t(d.size()));
        r.verify = [=](Ctx& c, const sysex7& s) {
            const char* k = "profile inquiry reply";
            head_is(c, k, s, h, 0x21);
            auto v = must<ci::profile_inquiry_reply_view>(c, k, s);
            field(c, k, "number of enabled profiles", v.num_enabled_profiles(), e.size());
            field(c, k, "number of disabled profiles", v.num_disabled_profiles(), d.size());
            field(c, k, "has enabled profiles", v.has_enabled_profiles(), !e.empty());
            field(c, k, "has disabled profiles", v.has_disabled_profiles(), !d.empty());
            const auto ve = v.enabled_profiles(), vd = v.disabled_profiles();
            field(c, k, "enabled profiles", ve.size(), e.size());
            field(c, k, "disabled profiles", vd.size(), d.size());
            for (size_t i = 0; i < e.size(); ++i)
                profile_is(c, k, ve[i], e[i]);
            for (size_t i = 0; i < d.size(); ++i)
                profile_is(c, k, vd[i], d[i]);
        };
        break;
    }
    case 14:
    case 15:
    case 16:
    case 17:
    {
        const auto             p = gen_profile(c);
        ci::profile_destination dest{ uint8_t(c.choose(2) ? gen_u7(c) : c.pick({ uint8_t(0x7E), uint8_t(0x7F), uint8_t(0) })), gen_u14(c) }, want = dest;
        switch (brief ? c.choose(5) : 0)
        {
        case 1: want = { uint8_t(dest.scope & 15), dest.num_channels }, dest = ci::channel_profile(want.scope, want.num_channels); break;
        case 2: want = { uint8_t(dest.scope & 15), 1 }, dest = ci::channel_profile(want.scope); break;
        case 3: want = { 0x7E, 0 }, dest = ci::group_profile; break;
        case 4: want = { 0x7F, 0 }, dest = c.choose(2) ? ci::function_block_profile : ci::profile_destination{}; break;
        default: break;
        }
        const uint8_t          sub = uint8_t(0x22 + kind - 14);
        const char*            k   = "profile on/off/enabled/disabled";
        r.kind                     = k;
        r.m = kind == 14   ? ci::make_profile_on_request(h.src, h.dst, p, dest)
              : kind == 15 ? ci::make_profile_off_request(h.src, h.dst, p, dest)
              : kind == 16 ? ci::make_profile_enabled_notification(h.src, h.dst, p, dest)
                           : ci::make_profile_disabled_notification(h.src, h.dst, p, dest);
        r.verify = [=](Ctx& c, const sysex7& s) {
            head_is(c, k, s, { h.src, h.dst, want.scope }, sub);
            auto v = must<ci::profile_destination_view>(c, k, s);
            profile_is(c, k, v.profile(), p);
            profile_is(c, k, must<ci::profile_id_view>(c, k, s).profile(), p);
            const unsigned n = sub == 0x23 ? 0 : want.num_channels; // reserved in "off"
            field(c, k, "number of channels", v.num_channels(), n);
            field(c, k, "destination", v.params().scope, want.scope);
            field(c, k, "destination channels", v.params().num_channels, n);
        };
        break;
    }
    case 18:
    case 19:
    {
        const auto    p   = gen_profile(c);
        const uint8_t sub = uint8_t(0x26 + kind - 18);
        const char*   k   = "profile added/removed";
        r.kind            = k;
        r.m               = kind == 18 ? CI_D(ci::make_profile_added_notification, h.src, h.dst, p) : CI_D(ci::make_profile_removed_notification, h.src, h.dst, p);
        r.verify          = [=](Ctx& c, const sysex7& s) {
            head_is(c, k, s, h, sub);
            profile_is(c, k, must<ci::profile_id_view>(c, k, s).profile(), p);
        };
        break;
    }
    case 20:
    {
        const auto    p = gen_profile(c);
        const uint8_t t = gen_u7(c);
        r.kind          = "profile details inquiry";
        r.m             = CI_D(ci::make_profile_details_inquiry, h.src, h.dst, p, t);
        r.verify        = [=](Ctx& c, const sysex7& s) {
            head_is(c, "profile details inquiry", s, h, 0x28);
            auto v = must<ci::profile_details_inquiry_view>(c, "profile details inquiry", s);
            profile_is(c, "profile details inquiry", v.profile(), p);
            field(c, "profile details inquiry", "target", v.target(), t);
        };
        break;
    }
    case 21:
    {
        const auto    p = gen_profile(c);
        const uint8_t t = gen_u7(c);
        const Bytes   d = gen_content(c, gen_ci_size(c, big), 0x7F);
        r.kind          = "profile details reply";
        r.m             = CI_D(ci::make_profile_details_reply, h.src, h.dst, p, t, d.data(), d.size());
        r.verify        = [=](Ctx& c, const sysex7& s) {
            head_is(c, "profile details reply", s, h, 0x29);
            auto v = must<ci::profile_details_reply_view>(c, "profile details reply", s);
            profile_is(c, "profile details reply", v.profile(), p);
            field(c, "profile details reply", "target", v.target(), t);
            range_is(c, "profile details reply", "target data", v.target_data(), v.target_data_length(), d);
        };
        break;
    }
    case 22:
    case 23:
    {
        const auto  p = gen_profile(c);
        const Bytes d = gen_content(c, big && c.choose(80) == 79 ? 2097150u + c.choose(4) : big && c.choose(4) == 3 ? c.pick({ 16384u, 20000u, 65535u, 65536u, 65537u, 70000u }) : gen_ci_size(c, big), 0x7F);
        r.kind        = "profile specific data";
        r.m           = kind == 22 ? CI_D(ci::make_profile_specific_data_message, h.src, h.dst, p, d.data(), d.size()) : CI_D(ci::make_profile_specific_data_message, h.src, h.dst, p, d);
        r.verify      = [=](Ctx& c, const sysex7& s) {
            head_is(c, "profile specific data", s, h, 0x2F);
            auto v = must<ci::profile_specific_data_view>(c, "profile specific data", s);
            profile_is(c, "profile specific data", v.profile(), p);
            field(c, "profile specific data", "data size", v.data_size(), d.size());
            range_is(c, "profile specific data", "data", v.data_begin(), size_t(v.data_end() - v.data_begin()), d);
        };
        break;
    }
    case 24:
    case 25:
    {
        const bool    few = brief && h.dev == 0x7F && c.choose(2);
        const uint8_t n = few ? uint8_t(1) : gen_u7(c), sub = uint8_t(0x30 + kind - 24);
        r.kind   = "property exchange capabilities";
        r.m      = few && kind == 24 ? ci::make_property_exchange_capabilities_inquiry(h.src, h.dst) : few ? ci::make_property_exchange_capabilities_reply(h.src, h.dst) : kind == 24 ? CI_D(ci::make_property_exchange_capabilities_inquiry, h.src, h.dst, n) : CI_D(ci::make_property_exchange_capabilities_reply, h.src, h.dst, n);
        r.verify = [=](Ctx& c, const sysex7& s) {
            head_is(c, "property exchange capabilities", s, h, sub);
            auto v = must<ci::property_exchange_capabilities_view>(c, "property exchange capabilities", s);
            field(c, "property exchange capabilities", "maximum number of requests", v.maximum_number_of_requests(), n);
            field(c, "property exchange capabilities", "version", v.pe_version_major(), 0);
            field(c, "property exchange capabilities", "version", v.pe_version_minor(), 0);
            // later and earlier implementations
            sysex7 x = s;
            if (x.data.size() != 15)
                c.fail("field", "property exchange capabilities of %zu bytes", x.data.size());
            x.data[13] = uint8_t(1 + c.choose(127)), x.data[14] = uint8_t(1 + c.choose(127));
            auto w = must<ci::property_exchange_capabilities_view>(c, "property exchange capabilities", x);
            field(c, "property exchange capabilities", "version", w.pe_version_major(), x.data[13]);
            field(c, "property exchange capabilities", "version", w.pe_version_minor(), x.data[14]);
            x.data.resize(13), x.data[3] = 1;
            auto u = must<ci::property_exchange_capabilities_view>(c, "property exchange capabilities", x);
            field(c, "property exchange capabilities", "maximum number of requests", u.maximum_number_of_requests(), n);
            field(c, "property exchange capabilities", "version", u.pe_version_major(), 0);
            field(c, "property exchange capabilities", "version", u.pe_version_minor(), 0);
        };
        break;
    }
    case 26: case 27: case 28: case 29: case 30: case 31: case 32: case 33: case 34: case 35: case 36: case 37:
    {
        const uint8_t     req = brief && c.choose(2) ? uint8_t(0) : gen_u7(c);
        const std::string res = gen_text(c, big && c.choose(8) == 7 ? 1 + c.choose(15000) : 1 + c.choose(24)), msg = c.choose(3) ? gen_text(c, c.choose(40)) : c.pick({ std::string(), std::string("-"), std::string("12"), std::string("x") });
        const auto        opt = options();
        const int         status = c.choose(12) == 11 ? c.pick({ 2147483647, -2147483647 - 1, 100000, -1, 0, 16384 }) : int(c.choose(1000)) - (c.choose(4) ? 0 : 500);
        // chunk numbering: first chunk carries the header, later ones none
        const uint16_t total = c.choose(3) ? uint16_t(1 + c.choose(5)) : c.pick({ uint16_t(0), uint16_t(0x3FFF), uint16_t(127), uint16_t(128), uint16_t(200) });
        const uint16_t later = total > 1 ? uint16_t(2 + c.choose(uint32_t(total - 1))) : uint16_t(total == 0 ? 1 + c.choose(300) : 1);
        const Bytes    d     = gen_content(c, gen_ci_size(c, big), 0x7F);
        const pe::chunk chunk(d.data(), d.size());
        const Bytes     no;
        Bytes           header, data;
        uint16_t        n = 1, k = 1;
        uint8_t         sub = 0;
        std::string     m2 = msg;
        if (m2.size() > 1 && (m2[0] == '0' || (m2[0] == '-' && m2[1] == '0')))
            m2 = "z" + m2;
        switch (kind)
        {
        case 26:
            r.m = CI_RD(ci::make_get_property_data_inquiry, h.src, h.dst, res);
            sub = 0x34, header = bytes_of(ref_json("resource", &res, 0, {}));
            break;
        case 27:
            r.m = CI_RD(ci::make_get_property_data_inquiry, h.src, h.dst, res, as_options(opt));
            sub = 0x34, header = bytes_of(ref_json("resource", &res, 0, opt));
            break;
        case 28:
            r.m = CI_RD(ci::make_get_property_data_reply, h.src, h.dst, status, total, 1, chunk);
            sub = 0x35, header = bytes_of(ref_json("status", nullptr, status, {})), data = d, n = total;
            break;
        case 29:
            r.m = CI_RD(ci::make_get_property_data_reply, h.src, h.dst, status, m2, total, 1, chunk);
            sub = 0x35, header = bytes_of(ref_json("status", nullptr, status, { { "message", m2 } })), data = d, n = total;
            break;
        case 30:
            r.m = CI_RD(ci::make_get_property_data_reply, h.src, h.dst, total, later, chunk);
            sub = 0x35, data = d, n = total, k = later;
            break;
        case 31:
            header = gen_content(c, gen_ci_size(c, big), 0x7F);
            r.m    = CI_RD(ci::make_get_property_data_reply, h.src, h.dst, pe::header(header.data(), header.size()), total, 1, chunk);
            sub = 0x35, data = d, n = total;
            break;
        case 32:
            r.m = CI_RD(ci::make_set_property_data_inquiry, h.src, h.dst, res, total, 1, chunk);
            sub = 0x36, header = bytes_of(ref_json("resource", &res, 0, {})), data = d, n = total;
            break;
        case 33:
            r.m = CI_RD(ci::make_set_property_data_inquiry, h.src, h.dst, res, as_options(opt), total, 1, chunk);
            sub = 0x36, header = bytes_of(ref_json("resource", &res, 0, opt)), data = d, n = total;
            break;
        case 34:
            r.m = CI_RD(ci::make_set_property_data_inquiry, h.src, h.dst, total, later, chunk);
            sub = 0x36, data = d, n = total, k = later;
            break;
        case 35:
            sub = 0x37;
            if (c.choose(2))
                r.m = CI_RD(ci::make_set_property_data_reply, h.src, h.dst, status), header = bytes_of(ref_json("status", nullptr, status, {}));
            else
                r.m = CI_RD(ci::make_set_property_data_reply, h.src, h.dst, status, m2), header = bytes_of(ref_json("status", nullptr, status, { { "message", m2 } }));
            break;
        case 36:
            switch (c.choose(4))
            {
            case 0:
                sub = 0x38;
                r.m = CI_RD(ci::make_subscription_inquiry, h.src, h.dst, res, "start", m2);
                header = bytes_of(ref_json("resource", &res, 0, { { "command", "start" }, { "subscribeId", m2 } }));
                n = k = 0; // a subscription inquiry without data has no chunks
                break;
            case 1:
                sub = 0x38;
                r.m = CI_RD(ci::make_subscription_inquiry, h.src, h.dst, res, "partial", m2, total, 1, chunk);
                header = bytes_of(ref_json("resource", &res, 0, { { "command", "partial" }, { "subscribeId", m2 } })), data = d, n = total;
                break;
            case 2:
                sub = 0x38;
                r.m = CI_RD(ci::make_subscription_inquiry, h.src, h.dst, total, later, chunk);
                data = d, n = total, k = later;
                break;
            default:
                sub = 0x39;
                if (c.choose(2))
                    r.m = CI_RD(ci::make_subscription_reply, h.src, h.dst, status), header = bytes_of(ref_json("status", nullptr, status, {}));
                else
                    r.m = CI_RD(ci::make_subscription_reply, h.src, h.dst, status, m2), header = bytes_of(ref_json("status", nullptr, status, { { "message", m2 } }));
            }
            break;
        default:
            sub = 0x3F;
            if (c.choose(2))
                r.m = CI_RD(ci::make_notify_message, h.src, h.dst, status), header = bytes_of(ref_json("status", nullptr, status, {}));
            else
                r.m = CI_RD(ci::make_notify_message, h.src, h.dst, status, m2), header = bytes_of(ref_json("status", nullptr, status, { { "message", m2 } }));
        }
        r.kind   = "property exchange";
        r.verify = [=](Ctx& c, const sysex7& s) {
            head_is(c, "property exchange", s, h, sub);
            pe_is(c, "property exchange", must<pe::property_data_message_view>(c, "property exchange", s), req, header, n, k, data);
            switch (sub)
            {
            case 0x34:
            case 0x35: must<ci::get_property_data_view>(c, "get property data", s); break;
            case 0x36:
            case 0x37: must<ci::set_property_data_view>(c, "set property data", s); break;
            case 0x38:
            case 0x39: must<ci::subscription_view>(c, "subscription", s); break;
            default: must<ci::notify_view>(c, "notify", s);
            }
        };
        break;
    }
    case 38:
        if (c.choose(2))
        {
            r.kind   = "process inquiry capabilities inquiry";
            r.m      = CI_D(ci::make_process_inquiry_capabilities_inquiry, h.src, h.dst);
            r.verify = [=](Ctx& c, const sysex7& s) { head_is(c, "process inquiry capabilities inquiry", s, h, 0x40); };
        }
        else
        {
            const uint8_t f = gen_u7(c);
            r.kind          = "process inquiry capabilities reply";
            r.m             = CI_D(ci::make_process_inquiry_capabilities_reply, h.src, h.dst, f);
            r.verify        = [=](Ctx& c, const sysex7& s) {
                head_is(c, "process inquiry capabilities reply", s, h, 0x41);
                field(c, "process inquiry capabilities reply", "features", must<ci::process_inquiry_capabilities_reply_view>(c, "process inquiry capabilities reply", s).supported_features(), f);
            };
        }
        break;
    case 39:
    {
        const uint8_t a = gen_u7(c), b = gen_u7(c), d = gen_u7(c), e = gen_u7(c);
        r.kind   = "message report inquiry";
        r.m      = CI_D(ci::make_midi_message_report_inquiry, h.src, h.dst, a, b, d, e);
        r.verify = [=](Ctx& c, const sysex7& s) {
            head_is(c, "message report inquiry", s, h, 0x42);
            auto v = must<ci::midi_message_report_inquiry_view>(c, "message report inquiry", s);
            field(c, "message report inquiry", "data control", v.message_data_control(), a);
            field(c, "message report inquiry", "system messages", v.system_message_types(), b);
            field(c, "message report inquiry", "controllers", v.channel_controller_message_types(), d);
            field(c, "message report inquiry", "notes", v.note_data_message_types(), e);
        };
        break;
    }
    case 40:
    {
        const uint8_t b = gen_u7(c), d = gen_u7(c), e = gen_u7(c);
        const bool    end = c.choose(3) == 2;
        r.kind            = "message report reply";
        r.m               = end ? CI_D(ci::make_midi_message_report_end, h.src) : CI_D(ci::make_midi_message_report_reply, h.src, b, d, e);
        r.verify          = [=](Ctx& c, const sysex7& s) {
            head_is(c, "message report reply", s, { h.src, bc, h.dev }, end ? 0x44 : 0x43);
            if (end)
                return;
            auto v = must<ci::midi_message_report_reply_view>(c, "message report reply", s);
            field(c, "message report reply", "system messages", v.system_message_types(), b);
            field(c, "message report reply", "controllers", v.channel_controller_message_types(), d);
            field(c, "message report reply", "notes", v.note_data_message_types(), e);
        };
        break;
    }
    default: // universal SysEx identity
    {
        const auto id = identity();
        if (c.choose(3) == 0)
        {
            r.kind   = "identity request";
            r.m      = (h.dev == 0x7F ? us::make_identity_request() : us::make_identity_request(h.dev));
            r.verify = [=](Ctx& c, const sysex7& s) {
                if (!us::is_identity_request(s) || us::is_identity_reply(s) || us::as_identity_reply_view(s))
                    c.fail("not-recognised", "identity request not recognised");
                field(c, "identity request", "device id", midi::universal_sysex_device_id_of(s), h.dev);
                field(c, "identity request", "type", midi::universal_sysex_type_of(s), us::type::general_information);
                field(c, "identity request", "subtype", midi::universal_sysex_subtype_of(s), 1u);
            };
        }
        else
        {
            const bool short_form = c.choose(2);
            const uint8_t dev     = short_form ? uint8_t(0x7F) : h.dev;
            r.kind                = "identity reply";
            r.m                   = short_form ? us::make_identity_reply(id) : CI_D(us::make_identity_reply, id.manufacturer, id.family, id.model, id.revision);
            r.verify              = [=](Ctx& c, const sysex7& s) {
                if (us::is_identity_request(s) || !us::is_identity_reply(s))
                    c.fail("not-recognised", "identity reply not recognised");
                auto v = us::as_identity_reply_view(s);
                if (!v)
                    c.fail("not-recognised", "identity reply view not available");
                identity_is(c, "identity reply", v->identity(), id);
                field(c, "identity reply", "device id", v->device_id(), dev);
                field(c, "identity reply", "type", midi::universal_sysex_type_of(s), us::type::general_information);
                field(c, "identity reply", "subtype", midi::universal_sysex_subtype_of(s), 2u);
            };
        }
        r.has_view = false;
    }
    }
    return r;
}
inline CiMsg gen_ci(Ctx& c, bool big) { const uint32_t k = c.choose(ci_kinds); return gen_ci(c, k, gen_head(c), big); }

//! what a run is about: anything, or the same few kinds of messages over and over
struct CiTopic
{
    std::vector<uint32_t> kinds;
    explicit CiTopic(Ctx& c)
    {
        if (c.choose(4) == 3)
            for (uint32_t n = 1 + c.choose(2); n; --n)
                kinds.push_back(c.choose(ci_kinds));
    }
    CiMsg next(Ctx& c, bool big) const { return kinds.empty() ? gen_ci(c, big) : gen_ci(c, c.pick(kinds), gen_head(c), big); }
};

} // namespace sim
