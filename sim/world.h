// Shared simulated world: workload generators, links, reference models.
#pragma once

#include "core.h"
#include "mem.h"

#include <midi/midi1_byte_stream.h>
#include <midi/sysex.h>
#include <midi/sysex_collector.h>
#include <midi/universal_packet.h>

#include <algorithm>
#include <deque>
#include <stdexcept>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace sim {

using Bytes  = std::vector<uint8_t>;
using Packet = midi::universal_packet;

inline uint64_t hash_bytes(const uint8_t* p, size_t n)
{
    uint64_t h = 1469598103934665603ull ^ n;
    for (size_t i = 0; i < n; ++i)
        h = (h ^ p[i]) * 1099511628211ull;
    return h;
}
inline uint64_t hash_bytes(const Bytes& b) { return hash_bytes(b.data(), b.size()); }

inline std::string hex(const uint8_t* p, size_t n, size_t max = 24)
{
    std::string s;
    char        b[8];
    for (size_t i = 0; i < n && i < max; ++i)
    {
        snprintf(b, sizeof b, "%02x ", p[i]);
        s += b;
    }
    if (n > max)
        s += "... (" + std::to_string(n) + ")";
    return s;
}
inline std::string hex(const Bytes& b, size_t max = 24) { return hex(b.data(), b.size(), max); }
inline std::string str(const Packet& p)
{
    std::string s;
    char        b[16];
    for (size_t i = 0; i < p.size(); ++i)
    {
        snprintf(b, sizeof b, "%s%08x", i ? " " : "", p.data[i]);
        s += b;
    }
    return s;
}

//! number of words of a packet, from the UMP specification
inline size_t ump_words(uint32_t w0)
{
    static const uint8_t n[16] = { 1, 1, 1, 2, 2, 4, 1, 1, 2, 2, 2, 3, 3, 4, 4, 4 };
    return n[w0 >> 28];
}
inline bool same_words(const Packet& a, const Packet& b)
{
    for (size_t i = 0; i < ump_words(a.data[0]); ++i)
        if (a.data[i] != b.data[i])
            return false;
    return true;
}
inline uint8_t ump_byte(const Packet& p, unsigned i) { return uint8_t(p.data[i / 4] >> (24 - 8 * (i % 4))); }
inline void    set_ump_byte(Packet& p, unsigned i, uint8_t v)
{
    const unsigned s = 24 - 8 * (i % 4);
    p.data[i / 4]    = (p.data[i / 4] & ~(0xFFu << s)) | (uint32_t(v) << s);
}

//--------------------------------------------------------------------------
// generators

struct SizeProfile
{
    uint32_t small = 12, boundary = 4, medium = 3, large = 0, giant = 0; // weights
    mutable uint32_t giants_left = 2;
};

//! sizes biased to where packets, buffers and length fields change
inline uint32_t gen_size(Ctx& c, const SizeProfile& p = {})
{
    static const std::vector<uint32_t> bounds{ 3, 5, 6, 10, 11, 12, 13, 17, 18, 23, 24, 25, 26, 39, 127, 128, 129, 130, 255, 256, 257, 384 };
    static const std::vector<uint32_t> big{ 511, 1023, 1024, 1025, 1027, 2047, 2048, 2049, 4095, 4096, 4098 };
    static const std::vector<uint32_t> huge{ 8192, 16383, 16384, 16385, 16386, 16390, 20000, 32768, 33000, 65535, 65536, 70000 };
    // more than 65536 packets of SysEx7, of SysEx8
    static const std::vector<uint32_t> giant{ 131072, 262144, 6 * 65536, 13 * 65536 };
    switch (c.weighted({ p.small, p.boundary, p.medium, p.large, p.large, p.giants_left ? p.giant : 0 }))
    {
    case 5:
        --p.giants_left;
        return c.pick(giant) - 20 + c.choose(60);
    case 0:
        return c.choose(21);
    case 1:
        return c.pick(bounds);
    case 2:
        return c.choose(400);
    case 3:
        return uint32_t(int(c.pick(big)) - 3 + int(c.choose(6)));
    default:
        return uint32_t(int(c.pick(huge)) - 3 + int(c.choose(6)));
    }
}

inline Bytes gen_content(Ctx& c, uint32_t size, uint8_t mask)
{
    Bytes          b(size);
    const uint32_t kind = c.choose(5);
    const uint32_t salt = kind >= 3 ? c.choose(1u << 16) : 0;
    for (uint32_t i = 0; i < size; ++i)
    {
        switch (kind)
        {
        case 0: b[i] = uint8_t(i + 1); break;
        case 1: b[i] = 0; break;
        case 2: b[i] = 0xFF; break;
        case 3: b[i] = uint8_t(mix64((uint64_t(salt) << 32) + i)); break;
        default:
        {
            static const uint8_t special[] = { 0xF7, 0xF0, 0x00, 0x7F, 0x7E, 0x80, 0xFF, 0x01 };
            b[i]                           = special[mix64((uint64_t(salt) << 32) + i) & 7];
        }
        }
        b[i] &= mask;
    }
    return b;
}

struct Msg
{
    uint32_t man{};
    Bytes    data;
    bool     operator==(const Msg& o) const { return man == o.man && data == o.data; }
};
inline uint64_t    hash(const Msg& m) { return mix64(m.man) ^ hash_bytes(m.data); }
inline std::string str(const Msg& m)
{
    char b[40];
    snprintf(b, sizeof b, "[%06x|%zu] ", m.man, m.data.size());
    return b + hex(m.data);
}
template<typename S>
Msg to_msg(const S& s)
{
    return Msg{ uint32_t(s.manufacturerID), Bytes(s.data.begin(), s.data.end()) };
}

inline uint32_t gen_manufacturer(Ctx& c)
{
    switch (c.choose(6))
    {
    case 0: return 0x7D0000;
    case 1: return c.range(1, 0x7F) << 16;
    case 2: return 0x7E0000 + (c.choose(2) << 16);
    case 3: return c.range(1, 0x7F) << 8; // 00 xx 00
    case 4: return c.range(1, 0x7F);      // 00 00 xx
    default: return (c.range(1, 0x7F) << 8) | c.range(1, 0x7F);
    }
}
inline Bytes man_bytes7(uint32_t man)
{
    if (man & 0xFF0000)
        return { uint8_t(man >> 16) };
    return { 0, uint8_t(man >> 8), uint8_t(man) };
}
inline Bytes man_bytes8(uint32_t man)
{
    if (man & 0xFF0000)
        return { 0, uint8_t(man >> 16) };
    return { uint8_t(0x80 | (man >> 8)), uint8_t(man) };
}

inline Msg gen_msg(Ctx& c, uint8_t mask, const SizeProfile& p = {})
{
    Msg m;
    m.man              = gen_manufacturer(c);
    const uint32_t n   = gen_size(c, p);
    m.data             = gen_content(c, n, mask);
    return m;
}

//! build the library's object; the configured allocator supplies the data
template<typename S>
S make_sysex(const Msg& m)
{
    return S(m.man, m.data.data(), m.data.size());
}

//! a packet that is not SysEx data: any other message type, any contents
inline Packet gen_other_packet(Ctx& c, bool allow_data_types = true)
{
    static const std::vector<uint32_t> types{ 2, 0, 1, 4, 0xD, 0xF, 6, 7, 8, 9, 10, 11, 12, 14 };
    Packet                             p;
    const uint32_t                     k = c.choose(allow_data_types ? 4 : 3);
    if (k == 3)
    {
        // data / extended data message types, but not SysEx: mixed data sets, reserved statuses and sizes
        if (c.choose(2))
            p.data[0] = 0x50000000u | (c.range(4, 15) << 20) | (c.choose(16) << 24) | (c.choose(16) << 16);
        else
            p.data[0] = 0x30000000u | (c.range(4, 15) << 20) | (c.choose(16) << 24) | (c.choose(16) << 16);
        p.data[0] |= c.choose(1u << 16);
    }
    else
    {
        p.data[0] = (c.pick(types) << 28) | (c.choose(16) << 24) | c.choose(1u << 24);
    }
    for (size_t i = 1; i < ump_words(p.data[0]); ++i)
        p.data[i] = c.u32();
    return p;
}

//--------------------------------------------------------------------------
//! MIDI 1.0 receiver: reference model of the byte stream parser

struct ByteModel
{
    // channel / common message in progress
    uint8_t status = 0;
    int     need = 0, have = 0;
    uint8_t d[2]{};
    uint16_t groups = 1; // groups configured since the status byte, one bit each
    // sysex
    bool  in_sysex = false, sx_enabled_at_start = false, sx_always_enabled = false, sx_group_dirty = false;
    Bytes sx;

    bool    enabled = true;
    uint8_t group = 0, status_group = 0;

    struct Out
    {
        bool     packet = false;
        uint32_t word = 0;
        uint16_t groups = 0; // groups it may carry
        bool     sysex_end = false; // F7 closed a SysEx
        bool     sysex_cancel = false;
        bool     sysex_begin = false;
    };

    static int data_bytes(uint8_t s)
    {
        if (s < 0xF0)
            return ((s & 0xF0) == 0xC0 || (s & 0xF0) == 0xD0) ? 1 : 2;
        switch (s)
        {
        case 0xF1:
        case 0xF3: return 1;
        case 0xF2: return 2;
        default: return 0;
        }
    }
    void reset()
    {
        status   = 0;
        need     = have = 0;
        in_sysex = false;
        sx.clear();
    }
    void set_group(uint8_t g)
    {
        if (g != group)
            sx_group_dirty = true;
        group = g;
        groups |= uint16_t(1u << g);
    }
    void set_enabled(bool e)
    {
        enabled = e;
        if (!e)
            sx_always_enabled = false;
    }
    Out feed(uint8_t b)
    {
        Out o;
        if (b >= 0xF8)
        {
            if (b != 0xF9 && b != 0xFD && enabled)
            {
                o.packet = true;
                o.word   = 0x10000000u | (uint32_t(group) << 24) | (uint32_t(b) << 16);
                o.groups = uint16_t(1u << group);
            }
            return o;
        }
        if (b < 0x80)
        {
            if (in_sysex)
            {
                sx.push_back(b);
                return o;
            }
            if (!status || need == 0)
                return o;
            d[have++] = b;
            if (have == need)
            {
                emit(o);
                have = 0;
                if (status >= 0xF0)
                {
                    status = 0;
                    need   = 0;
                }
            }
            return o;
        }
        // status byte
        if (in_sysex)
        {
            in_sysex = false;
            if (b == 0xF7)
            {
                o.sysex_end = true;
                status      = 0;
                need        = 0;
                return o;
            }
            o.sysex_cancel = true;
        }
        status       = b;
        status_group = group;
        groups       = uint16_t(1u << group);
        have         = 0;
        need         = data_bytes(b);
        if (b < 0xF0)
            return o;
        if (b == 0xF0)
        {
            status              = 0;
            in_sysex            = true;
            sx_enabled_at_start = sx_always_enabled = enabled;
            sx_group_dirty      = false;
            sx.clear();
            o.sysex_begin = true;
        }
        else if (b == 0xF6)
        {
            emit(o);
            status = 0;
        }
        else if (need == 0) // F4, F5, F7: undefined or stray
            status = 0;
        return o;
    }
    uint64_t state_hash() const
    {
        return (uint64_t(status) << 32) | (uint64_t(have) << 24) | (uint64_t(in_sysex) << 20) | (uint64_t(std::min<size_t>(sx.size(), 4000)) << 4) |
               (enabled ? 1 : 0);
    }

  private:
    void emit(Out& o)
    {
        if (!enabled)
            return;
        o.packet    = true;
        o.groups = groups;
        o.word   = (status < 0xF0 ? 0x20000000u : 0x10000000u) | (uint32_t(status_group) << 24) | (uint32_t(status) << 16) |
                 (need > 0 ? uint32_t(d[0]) << 8 : 0) | (need > 1 ? d[1] : 0u);
    }
};

//! what a closed SysEx (bytes between F0 and F7) means
struct SxMeaning
{
    enum { drop, lenient, deliver } verdict = drop;
    Msg msg;
};
inline SxMeaning sysex_meaning(const Bytes& b)
{
    SxMeaning m;
    if (b.empty())
        return m;
    if (b[0])
    {
        m.verdict = SxMeaning::deliver;
        m.msg     = { uint32_t(b[0]) << 16, Bytes(b.begin() + 1, b.end()) };
        return m;
    }
    if (b.size() < 3)
        return m;
    m.msg     = { (uint32_t(b[1]) << 8) | b[2], Bytes(b.begin() + 3, b.end()) };
    m.verdict = m.msg.man ? SxMeaning::deliver : SxMeaning::lenient;
    return m;
}

//--------------------------------------------------------------------------
//! the application's exception
struct AppError : std::runtime_error
{
    AppError() : std::runtime_error("application") {}
};
//! one that is no std::exception
struct AppSignal
{
};
[[noreturn]] inline void app_throws(Ctx& c)
{
    if (c.choose(3) == 2)
        throw AppSignal{};
    throw AppError{};
}

//--------------------------------------------------------------------------
//! another port of the same program, on which something else goes on meanwhile; what arrives there is nobody's concern here
class OtherPort
{
  public:
    OtherPort(uint64_t salt, bool callbacks) : m_salt(salt)
    {
        auto pcb = [](Packet) {};
        if (callbacks)
            m_parser.emplace(midi::group_t(salt & 15), pcb, [](const midi::sysex7&) {});
        else
            m_parser.emplace(midi::group_t(salt & 15), pcb);
    }
    void go_on()
    {
        const uint64_t h = mix64(m_salt + ++m_n);
        if (h % 4)
            return;
        mem::App app;
        for (unsigned n = 1 + (h >> 8) % 6, k = 0; k < n; ++k)
        {
            const uint64_t           x = mix64(h + k);
            static constexpr uint8_t status[] = { 0x90, 0xC3, 0xE5, 0xF0, 0xF0, 0xF7, 0xF7, 0xF1, 0xF2, 0xF6, 0xF8, 0xB1 };
            m_parser->feed(x % 5 < 2 ? status[(x >> 16) % sizeof status] : uint8_t((x >> 24) & 0x7F));
        }
        if ((h >> 40) % 64 == 0)
            m_parser->reset();
    }

  private:
    std::optional<midi::midi1_byte_stream_parser> m_parser;
    uint64_t                                      m_salt, m_n = 0;
};

//--------------------------------------------------------------------------
//! the real parser, driven byte by byte next to the model

class ParserRig
{
  public:
    enum Mode { packets, callback };
    struct Checks
    {
        bool common = true; // channel, common, real time messages
        bool sysex  = true;
    };

    ParserRig(Ctx& ctx, Mode mode, uint8_t group, bool enabled, Checks checks)
      : c(ctx), m_mode(mode), m_checks(checks)
    {
        model.group   = group;
        model.enabled = enabled;
        auto pcb      = [this](Packet p) { on_packet(p); };
        auto scb      = [this](const midi::sysex7& s) { on_sysex(s); };
        const uint32_t form = c.choose(3); // arguments with defaults given or left out
        mem::Lib       lib;
        if (mode == callback)
        {
            if (form && group == 0 && enabled)
                p.emplace(pcb, scb);
            else if (form && group == 0)
                p.emplace(pcb, scb, enabled);
            else if (form && enabled)
                p.emplace(group, pcb, scb);
            else
                p.emplace(group, pcb, scb, enabled);
        }
        else if (form == 1 && group == 0)
            p.emplace(pcb, midi::midi1_byte_stream_parser::sysex_callback{}, enabled);
        else if (form && group == 0 && enabled)
            p.emplace(pcb);
        else if (form && enabled)
            p.emplace(group, pcb);
        else
            p.emplace(group, pcb, midi::midi1_byte_stream_parser::sysex_callback{}, enabled);
        if (p->group() != group || p->callbacks_enabled() != enabled)
            c.fail("control", "a new parser for group %u, callbacks %d says group %u, callbacks %d", group, enabled, p->group(), p->callbacks_enabled());
    }
    ParserRig(const ParserRig&) = delete;
    ~ParserRig()
    {
        mem::Lib lib;
        p.reset();
    }

    //! decides what the application's callback does: 0 return, 1 throw, 2 reset, 3 reset and throw
    std::function<int()>                   action;
    //! what the application's callback changes on the n-th packet that is not SysEx: a pure function, asked for model and parser
    struct Control
    {
        int toggle = 0, group = -1, reset = 0;
    };
    std::function<Control(uint64_t)>       control;
    std::optional<OtherPort>               other;       // goes on between the bytes and inside the callbacks
    std::function<void(const Packet&)>     packet_hook; // receives every packet
    std::function<void(const Msg&)>        sysex_hook;  // receives every SysEx of the callback mode

    void feed(uint8_t b)
    {
        begin();
        push(b);
        if (m_out.back().sysex_cancel || m_out.back().sysex_begin)
            m_run = Run{}; // whatever was reported of a cut off SysEx stays incomplete
        if (other)
            other->go_on();
        call([&] { p->feed(b); });
        settle();
        c.state(model.state_hash());
    }
    //! several bytes in one call; form 0: pointer and size, 1: begin and end
    void feed_block(const uint8_t* data, size_t n, int form)
    {
        // exact copy, so that reads outside the block are caught
        std::unique_ptr<uint8_t[]> exact(new uint8_t[n ? n : 1]);
        std::copy(data, data + n, exact.get());
        begin();
        for (size_t i = 0; i < n; ++i)
            push(data[i]); // expectations of each byte, compared in order
        m_block = n;
        if (other)
            other->go_on();
        if (form)
            call([&] { p->feed(exact.get(), exact.get() + n); });
        else
            call([&] { p->feed(exact.get(), n); });
        settle();
        m_block     = 0;
        m_prefix_ok = false;
    }
    void reset()
    {
        c.ev("reset");
        model.reset();
        m_run = Run{};
        mem::Lib lib;
        p->reset();
    }
    void set_group(uint8_t g)
    {
        c.ev("group", g);
        model.set_group(g);
        mem::Lib lib;
        p->set_group(g);
        if (p->group() != g)
            c.fail("group", "group() is %u after set_group(%u)", unsigned(p->group()), unsigned(g));
    }
    void enable(bool e)
    {
        c.ev("enable", e);
        model.set_enabled(e);
        mem::Lib lib;
        p->enable_callbacks(e);
        if (p->callbacks_enabled() != e)
            c.fail("enable", "callbacks_enabled() is wrong");
    }

    //! a SysEx closed in the model while delivery was under way
    struct Closed
    {
        Bytes sx;
        bool  began_enabled, always_enabled, now_enabled;
    };
    Closed snapshot() const { return { model.sx, model.sx_enabled_at_start, model.sx_always_enabled, model.enabled }; }

    ByteModel model;
    uint64_t  delivered_packets = 0, delivered_sysex = 0, cancelled = 0, throws = 0, app_resets = 0, alloc_failures = 0;
    bool      retry_allocation = true;
    Mode      mode() const { return m_mode; }

    std::optional<midi::midi1_byte_stream_parser> p;

  private:
    struct Obs
    {
        bool   sysex;
        Packet packet;
        Msg    msg;
    };
    struct Run // SysEx packets of the message in progress (packet mode)
    {
        bool   open = false;
        Bytes  bytes;
        size_t checked = 0; // compared with what was received
    };

    void begin()
    {
        m_closed.clear();
        m_partial_ok = model.in_sysex && !model.sx_always_enabled;
        m_group_ok   = !(model.in_sysex && model.sx_group_dirty);
    }
    void push(uint8_t b)
    {
        m_out.push_back(model.feed(b));
        if (m_out.back().sysex_end)
            m_closed.push_back(snapshot());
        c.ev("byte", b);
        if (control && m_out.back().packet)
        {
            const Control k = control(m_model_packets++);
            if (k.toggle)
                model.set_enabled(!model.enabled);
            if (k.group >= 0)
                model.set_group(uint8_t(k.group));
            if (k.reset)
                model.reset();
        }
    }

    template<typename F>
    void call(F&& f)
    {
        m_obs.clear();
        m_reset_in_callback = false;
        const bool in       = mem::in_lib;
        for (int attempt = 0;; ++attempt)
        {
            m_threw = false;
            try
            {
                mem::in_lib = true;
                f();
                mem::in_lib = in;
                if (m_threw)
                    c.fail("exception-lost", "the application's exception did not reach the caller of feed");
            }
            catch (const AppError&)
            {
                mem::in_lib = in;
                if (!m_threw)
                    c.fail("exception-again", "an application exception was thrown a second time");
            }
            catch (const AppSignal&)
            {
                mem::in_lib = in;
                if (!m_threw)
                    c.fail("exception-again", "an application exception was thrown a second time");
            }
            catch (const std::bad_alloc&)
            {
                mem::in_lib = in;
                ++alloc_failures;
                c.fault("allocation failure");
                if (attempt < 6 && retry_allocation)
                    continue; // feed the same byte again
                throw;
            }
            break;
        }
    }

    void act()
    {
        if (!action)
            return;
        const int a = action();
        if (a & 2)
        {
            c.fault("callback resets");
            ++app_resets;
            m_reset_in_callback = true;
            model.reset();
            m_run = Run{};
            p->reset();
        }
        if (a & 1)
        {
            c.fault("callback throws");
            ++throws;
            m_threw = true;
            app_throws(c);
        }
    }
    void on_packet(const Packet& q)
    {
        mem::App app;
        c.ev("packet", q.data[0], q.data[1]);
        m_obs.push_back({ false, q, {} });
        endless();
        ++delivered_packets;
        if (other)
            other->go_on();
        if (packet_hook)
            packet_hook(q);
        if (m_mode == packets && (q.data[0] >> 28) == 3)
            sysex_packet(q);
        else if (control)
        {
            const Control k = control(m_real_packets++);
            if (k.toggle)
                p->enable_callbacks(!p->callbacks_enabled());
            if (k.group >= 0)
                p->set_group(midi::group_t(k.group));
            if (k.reset)
                p->reset();
            if (k.toggle || k.group >= 0 || k.reset)
                c.fault("control call inside a callback");
        }
        act();
    }
    void on_sysex(const midi::sysex7& s)
    {
        mem::App app;
        Msg      m = to_msg(s);
        c.ev("sysex", hash(m), m.data.size());
        m_obs.push_back({ true, {}, m });
        endless();
        ++delivered_sysex;
        if (other)
        {
            other->go_on();
            if (!(to_msg(s) == m))
                c.fail("sysex-changed", "a SysEx changed while the application looked at it");
        }
        if (sysex_hook)
            sysex_hook(m);
        act();
    }
    //! no byte can complete more than a SysEx (in its last packets) and another message
    void endless()
    {
        if (m_obs.size() > 64 + 8 * (m_block ? m_block : 1))
            c.fail("endless", "%zu reports for %zu bytes", m_obs.size(), m_block ? m_block : size_t(1));
    }
    //! form of the packets of a SysEx
    void sysex_packet(const Packet& q)
    {
        if (!m_checks.sysex)
            return;
        const unsigned form = (q.data[0] >> 20) & 0xF, n = (q.data[0] >> 16) & 0xF;
        if (!model.enabled)
            c.fail("while-disabled", "SysEx packet while callbacks are disabled: %s", str(q).c_str());
        if (form > 3 || n > 6)
            c.fail("sysex-form", "malformed SysEx packet %s", str(q).c_str());
        if (m_group_ok && ((q.data[0] >> 24) & 0xF) != model.group)
            c.fail("sysex-group", "SysEx packet %s not on group %u", str(q).c_str(), model.group);
        if (form == 0 || form == 1)
        {
            m_run       = Run{}; // previous one was abandoned (cancelled)
            m_prefix_ok = !m_block;
        }
        if ((form == 2 || form == 3) && !m_run.open)
        {
            // allowed only if its start could not be reported because callbacks were disabled
            if (!m_partial_ok)
                c.fail("sysex-form", "SysEx packet %s without start", str(q).c_str());
            return;
        }
        for (unsigned i = 0; i < n; ++i)
        {
            const uint8_t b = ump_byte(q, 2 + i);
            if (b & 0x80)
                c.fail("sysex-form", "8 bit payload in %s", str(q).c_str());
            m_run.bytes.push_back(b);
        }
        m_run.open = (form == 1 || form == 2);
        if (form == 0 || form == 3)
        {
            Obs o{ true, {}, {} };
            o.msg.data = m_run.bytes; // raw bytes, see settle()
            m_obs.push_back(std::move(o));
            m_run.bytes.clear();
            m_run.checked = 0;
            ++delivered_sysex;
        }
    }

    void settle()
    {
        size_t ib = 0; // closed sysex index within a block
        // expected packets in order
        std::vector<std::pair<uint32_t, uint16_t>> want;
        for (auto& o : m_out)
            if (o.packet)
                want.emplace_back(o.word, o.groups);
        if (m_checks.common)
        {
            size_t i = 0;
            for (auto& o : m_obs)
            {
                if (o.sysex || ((o.packet.data[0] >> 28) == 3 && m_mode == packets))
                    continue;
                c.check();
                if (i >= want.size())
                    c.fail("unexpected-packet", "packet %s reported but no message was completed", str(o.packet).c_str());
                if (((o.packet.data[0] ^ want[i].first) & 0xF0FFFFFFu) || !((want[i].second >> ((o.packet.data[0] >> 24) & 0xF)) & 1))
                    c.fail("wrong-packet", "packet %08x reported, expected %08x", o.packet.data[0], want[i].first);
                ++i;
            }
            if (i < want.size())
                c.fail("missing-packet", "packet %08x not reported", want[i].first);
        }
        if (m_checks.sysex)
        {
            std::vector<const Msg*> got;
            for (auto& o : m_obs)
                if (o.sysex)
                    got.push_back(&o.msg);
            size_t g = 0;
            // one that may or may not have been reported must not be taken for a later one that has to be
            auto has_to = [&](const Closed& cl) {
                if (!cl.always_enabled || !cl.now_enabled)
                    return false;
                return m_mode == callback ? sysex_meaning(cl.sx).verdict == SxMeaning::deliver : !cl.sx.empty();
            };
            size_t due = 0;
            for (auto& cl : m_closed)
                due += has_to(cl);
            for (auto& o : m_out)
            {
                if (o.sysex_cancel)
                    ++cancelled;
                if (!o.sysex_end)
                    continue;
                const Closed& cl    = m_closed[ib++];
                const bool    must  = has_to(cl);
                due -= must;
                const bool    spare = must || got.size() > g + due;
                c.check();
                if (m_mode == callback)
                {
                    const auto want = sysex_meaning(cl.sx);
                    const bool may  = want.verdict != SxMeaning::drop && cl.began_enabled && cl.now_enabled;
                    if (g < got.size() && may && spare && *got[g] == want.msg)
                        ++g;
                    else if (must && g >= got.size())
                        c.fail("sysex-missing", "SysEx %s not delivered", str(want.msg).c_str());
                    else if (must)
                        c.fail("sysex-wrong", "SysEx delivered as %s, expected %s", str(*got[g]).c_str(), str(want.msg).c_str());
                }
                else
                {
                    // toggling callbacks inside a SysEx in packet mode is outside the property
                    const bool any = !cl.always_enabled;
                    if (g < got.size() && spare && (any || (got[g]->data == cl.sx)))
                        ++g;
                    else if (must && g >= got.size())
                        c.fail("sysex-missing", "SysEx of %zu bytes not delivered: %s", cl.sx.size(), hex(cl.sx).c_str());
                    else if (must)
                        c.fail("sysex-wrong", "SysEx delivered as %s, expected %s", hex(got[g]->data).c_str(), hex(cl.sx).c_str());
                }
            }
            if (g < got.size() && !m_reset_in_callback)
                c.fail("sysex-unexpected", "SysEx %s reported as complete", str(*got[g]).c_str());
            // bytes reported early must be the bytes received
            if (m_mode == packets && !m_block && m_prefix_ok && m_run.open && model.in_sysex && model.sx_always_enabled)
            {
                if (m_run.bytes.size() > model.sx.size() ||
                    !std::equal(m_run.bytes.begin() + long(m_run.checked), m_run.bytes.end(), model.sx.begin() + long(m_run.checked)))
                    c.fail("sysex-wrong", "SysEx packets carry %s, received %s", hex(m_run.bytes).c_str(), hex(model.sx).c_str());
                m_run.checked = m_run.bytes.size();
            }
        }
        m_out.clear();
    }

    Ctx&                        c;
    Mode                        m_mode;
    Checks                      m_checks;
    std::vector<ByteModel::Out> m_out;
    std::vector<Obs>            m_obs;
    std::vector<Closed>         m_closed;
    Run                         m_run;
    size_t                      m_block = 0;
    uint64_t                    m_model_packets = 0, m_real_packets = 0;
    bool                        m_threw = false, m_reset_in_callback = false, m_partial_ok = false, m_group_ok = true, m_prefix_ok = true;
};

//--------------------------------------------------------------------------
//! a MIDI 1 transmitter: produces byte sequences of every kind a cable can carry

struct Talker
{
    SizeProfile sizes;
    uint32_t    w_channel = 8, w_running = 5, w_common = 3, w_realtime = 2, w_sysex = 3, w_garbage = 2, w_partial = 2;
    uint32_t    rt_in_message = 60; // per mille, between any two bytes
    uint8_t     last_status   = 0;
    bool        valid_sysex_only = false;
    uint32_t    w_past           = 0; // long stretches of plain messages

    //! many plain messages that are no decisions of their own: long histories
    void past(Ctx& c, Bytes& b)
    {
        const uint32_t kind = c.choose(6), n = c.pick({ 130u, 260u, 600u, 5000u, 66000u }), salt = c.choose(1u << 16);
        auto           rnd = [&](uint32_t i) { return mix64((uint64_t(salt) << 32) + i); };
        auto           d   = [&](uint32_t i, uint32_t k) { return uint8_t(rnd(i) >> (8 * k)) & 0x7F; };
        c.probe("long stretch of plain messages");
        switch (kind)
        {
        case 0: // running status, one data byte
        case 1: // two
            last_status = uint8_t((kind ? c.pick({ 0x80, 0x90, 0xA0, 0xB0, 0xE0 }) : c.pick({ 0xC0, 0xD0 })) + c.choose(16));
            b.push_back(last_status);
            for (uint32_t i = 0; i < n; ++i)
            {
                b.push_back(d(i, 0));
                if (kind)
                    b.push_back(d(i, 1));
            }
            break;
        case 2: // SysEx
            last_status = 0;
            for (uint32_t i = 0; i < n; ++i)
            {
                b.push_back(0xF0);
                b.push_back(uint8_t(1 + d(i, 0) % 126));
                for (uint32_t k = n > 10000 ? 0 : d(i, 1) & 7; k; --k)
                    b.push_back(d(i, k & 7));
                b.push_back(0xF7);
            }
            break;
        case 3: // real time
            for (uint32_t i = 0; i < n; ++i)
                b.push_back(uint8_t(0xF8 | (rnd(i) & 7)));
            break;
        case 4: // system common
            last_status = 0;
            for (uint32_t i = 0; i < n; ++i)
            {
                b.push_back(rnd(i) & 1 ? 0xF1 : 0xF6);
                if (rnd(i) & 1)
                    b.push_back(d(i, 1));
            }
            break;
        default: // one SysEx with real time in between
            last_status = 0;
            b.push_back(0xF0);
            b.push_back(0x7D);
            for (uint32_t i = 0; i < n; ++i)
            {
                b.push_back(d(i, 0));
                b.push_back(uint8_t(0xF8 | ((rnd(i) >> 8) & 7)));
            }
            b.push_back(0xF7);
        }
    }

    static uint8_t realtime(Ctx& c) { return uint8_t(0xF8 + c.choose(8)); }

    //! one more piece of the stream
    Bytes next(Ctx& c)
    {
        Bytes          b;
        const uint32_t k = c.weighted({ w_channel, w_running, w_common, w_realtime, w_sysex, w_garbage, w_partial, w_past });
        switch (k)
        {
        case 0: channel(c, b); break;
        case 1: // running status
            if (!last_status)
                channel(c, b);
            else
                for (uint32_t n = 1 + c.choose(3); n; --n)
                    for (int i = 0; i < ByteModel::data_bytes(last_status); ++i)
                        b.push_back(data(c));
            break;
        case 2:
        {
            static const uint8_t st[] = { 0xF1, 0xF2, 0xF3, 0xF6 };
            const uint8_t        s    = st[c.choose(4)];
            b.push_back(s);
            for (int i = 0; i < ByteModel::data_bytes(s); ++i)
                b.push_back(data(c));
            break;
        }
        case 3:
            for (uint32_t n = 1 + c.choose(3); n; --n)
                b.push_back(realtime(c));
            break;
        case 4: sysex(c, b, true); break;
        case 7: past(c, b); return b;
        case 5:
            switch (c.choose(4))
            {
            case 0: // stray data
                for (uint32_t n = 1 + c.choose(5); n; --n)
                    b.push_back(data(c));
                break;
            case 1: b.push_back(c.pick({ uint8_t(0xF4), uint8_t(0xF5), uint8_t(0xF7) })); break;
            case 2:
                for (uint32_t n = 1 + c.choose(8); n; --n)
                    b.push_back(uint8_t(c.choose(256)));
                break;
            default: b.push_back(0xF0); b.push_back(0xF7); break; // empty SysEx
            }
            break;
        default: // cut off message
            if (c.choose(2))
                sysex(c, b, false);
            else
            {
                channel(c, b);
                b.resize(b.size() - 1 - c.choose(uint32_t(b.size() - 1)));
            }
            break;
        }
        // system real time squeezed in anywhere
        if (rt_in_message)
        {
            Bytes r;
            for (size_t i = 0; i < b.size(); ++i)
            {
                if (i && b.size() <= 64 ? c.pm(rt_in_message) : (i % 61 == 7 && c.pm(rt_in_message)))
                {
                    r.push_back(realtime(c));
                    c.probe("real time inside message");
                }
                r.push_back(b[i]);
            }
            b.swap(r);
        }
        return b;
    }
    static uint8_t data(Ctx& c) { return c.choose(4) ? uint8_t(c.choose(128)) : c.pick({ uint8_t(0), uint8_t(0x7F), uint8_t(0x40), uint8_t(1) }); }
    void           channel(Ctx& c, Bytes& b)
    {
        last_status = uint8_t(0x80 + (c.choose(7) << 4) + c.choose(16));
        b.push_back(last_status);
        for (int i = 0; i < ByteModel::data_bytes(last_status); ++i)
            b.push_back(data(c));
    }
    void sysex(Ctx& c, Bytes& b, bool close)
    {
        last_status = 0;
        b.push_back(0xF0);
        if (!valid_sysex_only && c.pm(150)) // incomplete or null manufacturer
        {
            for (uint32_t n = c.choose(4); n; --n)
                b.push_back(0);
            if (c.choose(2))
                b.push_back(data(c));
        }
        else
        {
            const Msg m = gen_msg(c, 0x7F, sizes);
            Bytes     h = man_bytes7(m.man);
            b.insert(b.end(), h.begin(), h.end());
            b.insert(b.end(), m.data.begin(), m.data.end());
        }
        if (close)
            b.push_back(0xF7);
    }
};

//--------------------------------------------------------------------------
//! a serial line: loses, duplicates, corrupts and swaps bytes
struct SerialLine
{
    uint32_t loss = 0, dup = 0, flip = 0, swap = 0, insert = 0; // per mille per piece, then a position is drawn

    Bytes carry(Ctx& c, Bytes b) const
    {
        if (b.empty())
            return b;
        if (loss && c.pm(loss))
        {
            const size_t i = c.choose(uint32_t(b.size()));
            const size_t n = 1 + (c.choose(4) ? 0 : c.choose(uint32_t(b.size() - i)));
            b.erase(b.begin() + long(i), b.begin() + long(std::min(b.size(), i + n)));
            c.fault("byte lost", n);
            if (b.empty())
                return b;
        }
        if (dup && c.pm(dup))
        {
            const size_t i = c.choose(uint32_t(b.size()));
            b.insert(b.begin() + long(i), b[i]);
            c.fault("byte duplicated");
        }
        if (flip && c.pm(flip))
        {
            const size_t i = c.choose(uint32_t(b.size()));
            b[i] ^= uint8_t(1u << c.choose(8));
            c.fault("bit flipped");
        }
        if (swap && b.size() > 1 && c.pm(swap))
        {
            const size_t i = c.choose(uint32_t(b.size() - 1));
            std::swap(b[i], b[i + 1]);
            c.fault("bytes swapped");
        }
        if (insert && c.pm(insert))
        {
            const size_t i = c.choose(uint32_t(b.size() + 1));
            b.insert(b.begin() + long(i), uint8_t(c.choose(256)));
            c.fault("noise byte");
        }
        return b;
    }
    void draw_rates(Ctx& c)
    {
        // swarm: each fault kind on or off per run
        auto rate = [&] { return c.choose(2) ? c.pick({ 30u, 100u, 250u }) : 0u; };
        loss   = rate();
        dup    = rate();
        flip   = rate();
        swap   = rate();
        insert = rate();
    }
};

} // namespace sim
