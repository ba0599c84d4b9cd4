// Deterministic simulation core: one seed (or one decision tape) = one execution.
#pragma once

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <initializer_list>
#include <map>
#include <string>
#include <vector>

namespace sim {

//--------------------------------------------------------------------------

inline uint64_t mix64(uint64_t z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix64(seed ^ 0x5EEDull)) {}
    uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? uint32_t((__uint128_t(next()) * n) >> 64) : 0; }
};

//--------------------------------------------------------------------------

struct Violation
{
    std::string cls;
    std::string msg;
};

//! what a run leaves behind in memory shared with the parent (survives a crash)
struct SharedRun
{
    static constexpr size_t max_tape  = 1u << 19;
    static constexpr size_t max_spans = 1u << 17;
    uint32_t                tape_len;
    uint32_t                span_len;
    uint64_t                hash;
    uint64_t                events;
    int32_t                 finished;  // 1: run ended normally (violated or not)
    int32_t                 violated;
    char                    cls[96];
    char                    msg[2048];
    uint32_t                tape[max_tape];
    uint32_t                span_begin[max_spans];
    uint32_t                span_end[max_spans];
};

//--------------------------------------------------------------------------

struct Stats
{
    uint64_t                           runs{}, nontrivial{}, events{}, checks{};
    uint64_t                           sim_ns{};
    std::map<std::string, uint64_t>    faults, probes;
    std::vector<uint64_t>              hashes; // of nontrivial runs
    std::vector<uint8_t>               states; // bitmap, 2^22 bits
};

//--------------------------------------------------------------------------

class Ctx
{
  public:
    Ctx(uint64_t seed, const uint32_t* tape, size_t tape_len, SharedRun* out, Stats* stats, bool verbose)
      : m_rng(seed), m_replay(tape != nullptr), m_tape(tape), m_tape_len(tape_len), m_out(out), m_stats(stats), m_verbose(verbose)
    {
        if (m_out)
        {
            m_out->tape_len = m_out->span_len = 0;
            m_out->finished = m_out->violated = 0;
            m_out->cls[0] = m_out->msg[0] = 0;
        }
    }

    // ---- decisions -------------------------------------------------------

    //! 0..n-1, 0 being the simplest
    uint32_t choose(uint32_t n)
    {
        if (n <= 1)
            return 0;
        uint32_t v;
        if (m_replay)
        {
            v = (m_pos < m_tape_len) ? m_tape[m_pos] : 0;
            if (v >= n)
                v = n - 1;
        }
        else
            v = m_rng.below(n);
        return record(v);
    }
    uint32_t range(uint32_t lo, uint32_t hi) { return lo + choose(hi - lo + 1); }

    //! true with probability num/den
    bool chance(uint32_t num, uint32_t den)
    {
        uint32_t v;
        if (m_replay)
            v = (m_pos < m_tape_len) ? (m_tape[m_pos] ? 1 : 0) : 0;
        else
            v = (m_rng.below(den) < num) ? 1 : 0;
        return record(v) != 0;
    }
    //! per mille
    bool pm(uint32_t permille)
    {
        return permille ? chance(permille, 1000) : false;
    }

    uint32_t weighted(std::initializer_list<uint32_t> w)
    {
        uint32_t sum = 0;
        for (auto x : w)
            sum += x;
        uint32_t v = 0;
        if (m_replay)
        {
            v = (m_pos < m_tape_len) ? m_tape[m_pos] : 0;
            if (v >= w.size())
                v = uint32_t(w.size()) - 1;
            if (sum) // never select a disabled choice
            {
                if (*(w.begin() + v) == 0)
                    for (v = 0; *(w.begin() + v) == 0;)
                        ++v;
            }
        }
        else if (sum)
        {
            uint32_t r = m_rng.below(sum);
            for (auto x : w)
            {
                if (r < x)
                    break;
                r -= x;
                ++v;
            }
        }
        return record(v);
    }

    template<typename T>
    T pick(std::initializer_list<T> l)
    {
        return *(l.begin() + choose(uint32_t(l.size())));
    }
    template<typename T>
    const T& pick(const std::vector<T>& l)
    {
        return l[choose(uint32_t(l.size()))];
    }
    uint64_t u64() { uint64_t h = u32(); return (h << 32) | u32(); }
    uint32_t u32()
    {
        uint32_t v = m_replay ? ((m_pos < m_tape_len) ? m_tape[m_pos] : 0) : uint32_t(m_rng.next() >> 32);
        return record(v);
    }

    // ---- observation -----------------------------------------------------

    //! record an event of the run: part of the run's hash
    void ev(const char* tag, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0)
    {
        uint64_t t = 0;
        for (const char* p = tag; *p; ++p)
            t = t * 131 + uint8_t(*p);
        m_hash = mix64(m_hash ^ t) + mix64(a * 3 + 1) * 7 + mix64(b * 5 + 2) * 11 + mix64(c * 7 + 3) * 13;
        ++m_events;
        if (m_verbose)
            text("%-12s %llx %llx %llx", tag, (unsigned long long)a, (unsigned long long)b, (unsigned long long)c);
    }
    __attribute__((format(printf, 2, 3))) void text(const char* fmt, ...)
    {
        if (!m_verbose)
            return;
        char    buf[512];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        m_text.emplace_back(buf);
    }
    bool verbose() const { return m_verbose; }

    void fault(const char* name, uint64_t n = 1)
    {
        m_nfaults += n;
        if (m_stats)
            m_stats->faults[name] += n;
        m_hash = mix64(m_hash ^ uint8_t(name[0]) ^ (uint64_t(uint8_t(name[1])) << 8));
        ++m_events;
        if (m_verbose)
            text("  !fault %s", name);
    }
    void probe(const char* name, uint64_t n = 1)
    {
        if (m_stats)
            m_stats->probes[name] += n;
    }
    void check(uint64_t n = 1) { m_checks += n; }
    void state(uint64_t h)
    {
        if (m_stats)
        {
            if (m_stats->states.empty())
                m_stats->states.resize((1u << 22) / 8);
            h = mix64(h) & ((1u << 22) - 1);
            m_stats->states[h >> 3] |= uint8_t(1u << (h & 7));
        }
    }
    void nontrivial() { m_nontrivial = true; }
    void advance(uint64_t ns) { m_now += ns; m_simns += ns; }
    uint64_t now() const { return m_now; }
    void     set_now(uint64_t t) { if (t > m_now) m_simns += t - m_now; m_now = t; }

    [[noreturn]] __attribute__((format(printf, 3, 4))) void fail(const char* cls, const char* fmt, ...)
    {
        char    buf[2000];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        if (!m_failed)
        {
            m_failed    = true;
            m_violation = { cls, buf };
            if (m_out)
            {
                snprintf(m_out->cls, sizeof m_out->cls, "%s", cls);
                snprintf(m_out->msg, sizeof m_out->msg, "%s", buf);
            }
            text("VIOLATION %s: %s", cls, buf);
        }
        throw m_violation;
    }

    // ---- structure (for the minimiser) -----------------------------------

    size_t pos() const { return m_pos; }
    void   span(size_t b, size_t e)
    {
        if (m_out && e > b && m_out->span_len < SharedRun::max_spans)
        {
            m_out->span_begin[m_out->span_len] = uint32_t(b);
            m_out->span_end[m_out->span_len++] = uint32_t(e);
        }
    }

    bool             failed() const { return m_failed; }
    const Violation& violation() const { return m_violation; }
    uint64_t         hash() const { return mix64(m_hash ^ m_events); }
    uint64_t         events() const { return m_events; }
    uint64_t         checks() const { return m_checks; }
    uint64_t         sim_ns() const { return m_simns; }
    bool             is_nontrivial() const { return m_nontrivial; }
    uint64_t         nfaults() const { return m_nfaults; }
    const std::vector<std::string>& lines() const { return m_text; }

  private:
    uint32_t record(uint32_t v)
    {
        if (m_out && m_pos < SharedRun::max_tape)
        {
            m_out->tape[m_pos] = v;
            m_out->tape_len    = uint32_t(m_pos + 1);
        }
        ++m_pos;
        return v;
    }

    Rng                      m_rng;
    bool                     m_replay;
    const uint32_t*          m_tape;
    size_t                   m_tape_len;
    SharedRun*               m_out;
    Stats*                   m_stats;
    bool                     m_verbose;
    size_t                   m_pos{};
    uint64_t                 m_hash{}, m_events{}, m_checks{}, m_now{}, m_simns{}, m_nfaults{};
    bool                     m_failed{}, m_nontrivial{};
    Violation                m_violation;
    std::vector<std::string> m_text;
};

//--------------------------------------------------------------------------
//! loop over generated operations; each iteration is a span the minimiser can delete
class Ops
{
  public:
    Ops(Ctx& c, uint32_t avg, uint32_t max) : m_c(c), m_avg(avg ? avg : 1), m_max(max) {}
    bool next()
    {
        close();
        m_start = m_c.pos();
        m_open  = true;
        if (m_count >= m_max)
            return false;
        ++m_count;
        return m_c.chance(m_avg, m_avg + 1);
    }
    void close()
    {
        if (m_open)
            m_c.span(m_start, m_c.pos());
        m_open = false;
    }
    ~Ops() { close(); }
    uint32_t count() const { return m_count; }

  private:
    Ctx&     m_c;
    uint32_t m_avg, m_max, m_count{};
    size_t   m_start{};
    bool     m_open{};
};

struct Span
{
    Ctx&   c;
    size_t b;
    explicit Span(Ctx& ctx) : c(ctx), b(ctx.pos()) {}
    ~Span() { c.span(b, c.pos()); }
};

//--------------------------------------------------------------------------
// memory seam (implemented in seams.cpp)

namespace mem {
struct Counters
{
    uint64_t allocs, frees, failed, bytes;
};
//! start counting/failing allocations made through the configured source while in library scope
void begin_run();
//! returns outstanding blocks that were allocated in library scope
uint64_t outstanding();
uint64_t outstanding_bytes();
Counters counters();
//! first accounting error detected (size mismatch, foreign free, ...) or nullptr
const char* error();
//! fail the n-th next allocation in library scope (1 = next), 0 = never; once
void fail_in(uint64_t n, uint64_t count = 1);
bool armed();
//! total blocks obtained from heap in library scope although another source is configured, of sysex size
extern bool in_lib;
extern int  initialising; // local statics: what they allocate stays, whatever history comes first
struct Lib // scope: code of the library runs
{
    bool old;
    Lib() : old(in_lib) { in_lib = true; }
    ~Lib() { in_lib = old; }
};
struct App // scope: application code (callbacks) runs
{
    bool old;
    App() : old(in_lib) { in_lib = false; }
    ~App() { in_lib = old; }
};

const char* config_name();
} // namespace mem

// clock seam
namespace clk {
void    set_ns(int64_t ns); //!< what the system clock returns from now on
int64_t get_ns();
extern uint64_t reads;
} // namespace clk

//--------------------------------------------------------------------------

struct Scenario
{
    const char* property;
    const char* rule;      // what makes a run non-trivial
    void (*run)(Ctx&);
    uint64_t    quick_runs; // per configuration
    bool        isolate;    // one process per run
    const char* real;       // components running real code
    const char* stub;       // components simulated
    const char* assumptions;
};
const Scenario& scenario(); // defined by each scenario file

} // namespace sim
