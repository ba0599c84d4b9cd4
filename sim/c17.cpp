// C17: Packets written to a text stream are read back exactly or reported missing
#include "world.h"
#include <iomanip>
#include <iostream>
#include <streambuf>
using namespace sim;

namespace {

//! the storage: accepts a limited number of characters, in portions
struct Disk : std::streambuf
{
    Ctx&        c;
    std::string text;
    size_t      capacity = SIZE_MAX;
    bool        throws   = false;
    explicit Disk(Ctx& ctx) : c(ctx) {}

    int_type overflow(int_type ch) override
    {
        if (ch == traits_type::eof())
            return traits_type::not_eof(ch);
        if (text.size() >= capacity)
            return full();
        text.push_back(char(ch));
        return ch;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        const size_t room = capacity - std::min(capacity, text.size());
        const size_t k    = std::min<size_t>(room, size_t(n));
        text.append(s, k);
        if (k < size_t(n))
            full();
        return std::streamsize(k);
    }
    int_type full()
    {
        c.fault("disk full, short write");
        if (throws)
            throw std::runtime_error("disk");
        return traits_type::eof();
    }
};

//! the reader's side: delivers the text in portions, may fail at a position
struct Source : std::streambuf
{
    Ctx&        c;
    std::string text;
    size_t      pos = 0, max_portion = 64;
    size_t      error_at = SIZE_MAX; // throws when asked for this position
    std::vector<char> buf;
    explicit Source(Ctx& ctx) : c(ctx) {}

    int_type underflow() override
    {
        if (gptr() != egptr())
            return traits_type::to_int_type(*gptr());
        if (pos >= error_at)
        {
            c.fault("read error");
            throw std::runtime_error("read");
        }
        if (pos >= text.size())
        {
            setg(nullptr, nullptr, nullptr);
            return traits_type::eof();
        }
        size_t n = std::min<size_t>(text.size() - pos, 1 + c.choose(uint32_t(max_portion)));
        n        = std::min(n, error_at - pos);
        buf.assign(text.begin() + long(pos), text.begin() + long(pos + n)); // exact size
        pos += n;
        setg(buf.data(), buf.data(), buf.data() + n);
        c.ev("portion", n);
        return traits_type::to_int_type(buf[0]);
    }
};

struct Format
{
    std::ios_base::fmtflags flags;
    char                    fill;
    std::streamsize         precision;
};
template<typename S>
Format format_of(S& s) { return { s.flags(), s.fill(), s.precision() }; }
template<typename S>
void same_format(Ctx& c, S& s, const Format& f, const char* what)
{
    c.check();
    if (s.flags() != f.flags)
        c.fail("format", "%s changed the stream's format flags from %x to %x", what, unsigned(f.flags), unsigned(s.flags()));
    if (s.fill() != f.fill)
        c.fail("format", "%s changed the stream's fill character from '%c' to '%c'", what, f.fill, s.fill());
    if (s.precision() != f.precision)
        c.fail("format", "%s changed the stream's precision", what);
}

template<typename S>
void shake_format(Ctx& c, S& s, bool input)
{
    s.setf(c.pick({ std::ios_base::dec, std::ios_base::hex, std::ios_base::oct, std::ios_base::fmtflags{} }), std::ios_base::basefield);
    s.setf(c.pick({ std::ios_base::fmtflags{}, std::ios_base::right, std::ios_base::left, std::ios_base::internal }), std::ios_base::adjustfield);
    auto flip = [&](std::ios_base::fmtflags f) {
        if (c.choose(2))
            s.setf(f);
        else
            s.unsetf(f);
    };
    flip(std::ios_base::showbase);
    flip(std::ios_base::uppercase);
    flip(std::ios_base::showpos);
    flip(std::ios_base::boolalpha);
    flip(std::ios_base::showpoint);
    if (!input)
        flip(std::ios_base::unitbuf);
    s.fill(c.pick({ ' ', '*', '0', 'x' }));
    s.precision(c.choose(20));
    c.ev("format", uint64_t(s.flags()), uint64_t(s.fill()));
}

void run(Ctx& c)
{
    Disk               disk(c);
    std::ostream       out(&disk);
    const bool         shaky = c.choose(3) != 0;
    const uint32_t     widths = c.choose(3);
    struct Written
    {
        Packet              p;
        size_t              begin, end;   // position in the text
        std::vector<size_t> word_end;
    };
    std::vector<Written> log;
    if (c.choose(5) == 4)
    {
        disk.capacity = c.choose(400);
        disk.throws   = c.choose(2);
    }
    if (c.choose(8) == 7)
        out.exceptions(std::ios_base::badbit);
    bool write_failed = false, partial = false;
    {
        Ops ops(c, c.pick({ 3u, 12u, 30u }), 80);
        while (!write_failed && ops.next())
        {
            if (shaky)
                shake_format(c, out, false);
            if (widths == 2)
                out.width(c.choose(24));
            Packet p;
            p.data[0] = c.choose(3) ? c.u32() : (c.choose(16) << 28) | c.choose(256);
            for (size_t i = 1; i < ump_words(p.data[0]); ++i)
                p.data[i] = c.choose(3) ? c.u32() : c.pick({ 0u, 1u, 0x80000000u, 0xFFFFFFFFu, 0x10u });
            const auto   f     = format_of(out);
            const size_t begin = disk.text.size();
            try
            {
                out << p;
            }
            catch (const std::exception&)
            {
                write_failed = true;
            }
            same_format(c, out, f, "writing a packet");
            c.ev("write", (uint64_t(p.data[0]) << 32) | p.data[1], (uint64_t(p.data[2]) << 32) | p.data[3], disk.text.size());
            if (!out)
                write_failed = true;
            if (write_failed)
            {
                // a part of it may have reached the disk; the reader must notice what is missing
                Written w{ p, begin, SIZE_MAX, {} };
                for (size_t i = begin + 1; i < disk.text.size() && w.word_end.size() + 1 < ump_words(p.data[0]); ++i)
                    if (std::isspace(static_cast<unsigned char>(disk.text[i])) && !std::isspace(static_cast<unsigned char>(disk.text[i - 1])))
                        w.word_end.push_back(i);
                w.word_end.resize(ump_words(p.data[0]), SIZE_MAX);
                log.push_back(w);
                partial = true;
                break;
            }
            Written w{ p, begin, disk.text.size(), {} };
            // how it looks is free, that it has as many words as the packet is not
            bool in_word = false;
            for (size_t i = begin; i <= w.end; ++i)
            {
                const bool x = i < w.end && !std::isspace(static_cast<unsigned char>(disk.text[i]));
                if (in_word && !x)
                    w.word_end.push_back(i);
                in_word = x;
            }
            c.check();
            if (w.word_end.size() != ump_words(p.data[0]))
                c.fail("words", "packet %s written as '%s'", str(p).c_str(), disk.text.substr(begin, w.end - begin).c_str());
            log.push_back(w);
            // separator
            out.width(0);
            try
            {
                switch (c.choose(4))
                {
                case 0: out << '\n'; break;
                case 1: out << ' '; break;
                case 2: out << " \t\n"; break;
                default: out << std::endl; break;
                }
            }
            catch (const std::exception&)
            {
                write_failed = true;
            }
            if (!out)
                write_failed = true;
        }
    }
    c.text("  text: %s", disk.text.c_str());

    // what is left of it: everything, or the part stored before a crash
    Source src(c);
    src.text        = disk.text;
    src.max_portion = c.pick({ 64u, 1u, 7u, 9u, 4096u });
    bool  torn      = false;
    size_t cut      = src.text.size();
    if (c.choose(2))
    {
        if (log.size() && c.choose(2)) // next to a word's end
        {
            const auto& w = c.pick(log);
            cut           = std::min(src.text.size(), c.pick(w.word_end));
            if (c.choose(2))
                cut = std::min(cut + 1, src.text.size());
        }
        else
            cut = c.choose(uint32_t(src.text.size() + 1));
        if (cut < src.text.size())
        {
            torn = true;
            if (c.choose(3) == 2)
            {
                src.error_at = cut;
                c.text("  read error at %zu", cut);
            }
            else
            {
                src.text.resize(cut);
                c.fault("stream cut off");
            }
        }
    }
    const bool    error = src.error_at != SIZE_MAX;
    std::istream  in(&src);
    const bool    exc = c.choose(6) == 5;
    if (exc)
        in.exceptions(c.pick({ std::ios_base::failbit | std::ios_base::badbit, std::ios_base::failbit, std::ios_base::badbit }));
    size_t   n = 0;
    uint64_t reads = 0;
    for (;;)
    {
        if (shaky)
            shake_format(c, in, true);
        in.width(0);
        const auto f = format_of(in);
        Packet     p(0xDEAD0001u, 0xDEAD0002u, 0xDEAD0003u, 0xDEAD0004u);
        bool       ok;
        try
        {
            ok = bool(in >> p);
        }
        catch (const std::ios_base::failure&)
        {
            ok = false;
        }
        catch (const std::runtime_error&) // the source's own exception, passed on if badbit is in the mask
        {
            ok = false;
        }
        same_format(c, in, f, "reading a packet");
        c.ev("read", ok, (uint64_t(p.data[0]) << 32) | p.data[1], (uint64_t(p.data[2]) << 32) | p.data[3]);
        c.check();
        const bool have    = n < log.size();
        const bool all     = have && (!torn || log[n].end <= cut) && !(partial && n + 1 == log.size());              // all its text is there
        const bool at_end  = all && torn && log[n].end == cut && error;         // the error shows while looking for the end of the last word
        if (!ok)
        {
            if (all && !at_end)
                c.fail("unreadable", "packet %zu of %zu (%s) is complete in the text but was not read", n, log.size(), str(log[n].p).c_str());
            // nothing is read from a failed stream
            break;
        }
        ++reads;
        if (!have)
        {
            c.fail("invented", "packet %s read after the last one written", str(p).c_str());
        }
        if (all)
        {
            if (!same_words(p, log[n].p))
                c.fail("changed", "packet %zu read as %s, written was %s", n, str(p).c_str(), str(log[n].p).c_str());
            ++n;
            continue;
        }
        // cut inside this packet: only a cut inside its last word cannot be noticed, or inside its first one, where the type is
        const auto& w        = log[n];
        size_t      complete = 0;
        while (complete < w.word_end.size() && w.word_end[complete] <= cut)
            ++complete;
        const size_t word_begin  = complete ? w.word_end[complete - 1] + 1 : w.begin;
        const bool   inside_word = cut > word_begin;
        const bool   unnoticed   = inside_word && (complete + 1 == w.word_end.size() || complete == 0);
        if (!unnoticed)
            c.fail("torn", "packet %zu was reported as read (%s) although only %zu of its %zu words were there", n, str(p).c_str(), complete, w.word_end.size());
        break;
    }
    if (error)
        c.probe("read errors", 1);
    c.probe("packets written", log.size());
    c.probe("packets read", reads);
    c.probe("torn texts", torn);
    c.state((uint64_t(n) << 20) ^ (uint64_t(torn) << 16) ^ (uint64_t(error) << 17) ^ (log.size() << 8) ^ (cut & 0xFF));
    if (log.size() >= 1 + partial)
        c.nontrivial();
}
} // namespace

const Scenario& sim::scenario()
{
    static const Scenario s{ "C17",
                             "packets written to a simulated disk in seeded formatting states and read back in seeded portions, with full disk, cut off text and read errors; non-trivial: at least one packet "
                             "written; distinct by hash of the complete event log",
                             run, 1000000, false, "operator<< and operator>> of universal_packet, the standard library's streams", "disk and source (stream buffers)",
                             "classic locale; whitespace is skipped on input; a cut inside the digits of a word leaves a shorter number that no reader can tell from a written one, so only missing words are judged" };
    return s;
}
