// Driver: seeded batch over worker processes, crash isolation, minimisation, replay.
#include "core.h"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <new>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;

namespace {

struct Shared
{
    uint64_t  min_violation; // smallest violating run index
    uint64_t  current[64];   // run index each worker is in
    SharedRun run;           // used by one child at a time
};

Shared*     shared;
std::string scratch;
uint64_t    base_seed = 1;

double wall()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}

uint64_t run_seed(uint64_t index)
{
    // every build configuration explores runs of its own
    uint64_t cfg = 0;
    for (const char* p = mem::config_name(); *p; ++p)
        cfg = cfg * 131 + uint8_t(*p);
    return mix64(mix64(base_seed) ^ mix64(index + 0x1234567) ^ mix64(cfg));
}

// A hang is that no event and no check happens for this much processor time, however long a run takes
// altogether (or that there is no end of events).
constexpr unsigned    hang_seconds = 15;
constexpr uint64_t    no_end       = 60000000;
const Ctx*            watched      = nullptr;
uint64_t              seen_progress;
uint64_t progress() { return watched->events() + watched->checks(); }
void arm(unsigned seconds)
{
    itimerval it{};
    it.it_value.tv_sec = seconds;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
void on_timer(int)
{
    const auto now = watched ? progress() : 0;
    if (watched && now != seen_progress && now < no_end)
    {
        seen_progress = now;
        arm(hang_seconds);
        return;
    }
    signal(SIGVTALRM, SIG_DFL);
    sigset_t s;
    sigemptyset(&s);
    sigaddset(&s, SIGVTALRM);
    sigprocmask(SIG_UNBLOCK, &s, nullptr);
    raise(SIGVTALRM);
}
void watchdog(const Ctx* c)
{
    watched = c;
    if (!c)
    {
        arm(0);
        return;
    }
    seen_progress = progress();
    signal(SIGVTALRM, on_timer);
    arm(hang_seconds);
}

struct Result
{
    bool                     violated{};
    Violation                v;
    uint64_t                 hash{}, events{};
    std::vector<std::string> lines;
};

//! one simulated run in this process
Result execute(uint64_t seed, const uint32_t* tape, size_t len, SharedRun* out, Stats* stats, bool verbose)
{
    Ctx ctx(seed, tape, len, out, stats, verbose);
    mem::begin_run();
    clk::set_ns(1000000000000000000ll);
    watchdog(&ctx);
    try
    {
        scenario().run(ctx);
    }
    catch (const Violation&)
    {
    }
    catch (const std::exception& e)
    {
        mem::in_lib = false;
        try { ctx.fail("unexpected-exception", "exception escaped: %s", e.what()); } catch (const Violation&) {}
    }
    mem::in_lib = false;
    mem::fail_in(0);
    watchdog(nullptr);
    Result r;
    r.violated = ctx.failed();
    r.v        = ctx.violation();
    r.hash     = ctx.hash();
    r.events   = ctx.events();
    if (verbose)
        r.lines = ctx.lines();
    if (stats)
    {
        ++stats->runs;
        stats->events += ctx.events();
        stats->checks += ctx.checks();
        stats->sim_ns += ctx.sim_ns();
        if (ctx.pos() > SharedRun::max_tape)
            ++stats->probes["decision tape overflow"];
        if (ctx.is_nontrivial())
        {
            ++stats->nontrivial;
            stats->hashes.push_back(ctx.hash());
        }
    }
    if (out)
    {
        out->hash     = r.hash;
        out->events   = r.events;
        out->violated = r.violated;
        out->finished = 1;
    }
    return r;
}

std::string slurp(const std::string& path)
{
    std::ifstream     f(path);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}

//! class of a crash from the exit status and what the sanitizers wrote
std::string crash_class(int status, const std::string& errtext, std::string& msg)
{
    auto line_with = [&](const char* key) {
        auto p = errtext.find(key);
        if (p == std::string::npos)
            return std::string{};
        auto b = errtext.rfind('\n', p);
        b      = (b == std::string::npos) ? 0 : b + 1;
        return errtext.substr(b, errtext.find('\n', p) - b);
    };
    std::string l;
    if (!(l = line_with("ERROR: AddressSanitizer: ")).empty())
    {
        auto p = l.find("AddressSanitizer: ") + 18;
        auto k = l.substr(p, l.find(' ', p) - p);
        auto s = line_with("SUMMARY: AddressSanitizer");
        msg    = s.empty() ? l : s;
        // the frame within the library, if any
        return "memory-error:" + k;
    }
    if (!(l = line_with("runtime error: ")).empty())
    {
        msg = l;
        return "undefined-behaviour";
    }
    if (!(l = line_with("Assertion")).empty())
    {
        msg = l;
        return "assertion";
    }
    if (WIFSIGNALED(status))
    {
        const int s = WTERMSIG(status);
        msg         = std::string("terminated by signal ") + std::to_string(s) + " " + strsignal(s);
        if (s == SIGVTALRM)
            return "hang";
        if (!(l = line_with("terminate called")).empty())
            msg += "; " + l;
        return "signal-" + std::to_string(s);
    }
    msg = "process ended with status " + std::to_string(WEXITSTATUS(status)) + ": " + errtext.substr(0, 300);
    return "process-exit";
}

//! runs that come before the examined one in the same process: only where the code under test keeps something from one run to the next
std::vector<uint64_t> history;

//! one run in a child process; crash safe
Result in_child(uint64_t seed, const std::vector<uint32_t>* tape, bool verbose, std::vector<uint32_t>* tape_out,
                std::vector<std::pair<uint32_t, uint32_t>>* spans_out, Stats* stats = nullptr)
{
    auto&             r       = shared->run;
    const std::string errfile = scratch + "/child.err";
    const std::string logfile = scratch + "/child.log";
    r.finished = r.violated = 0;
    r.tape_len = r.span_len = 0;
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid < 0)
    {
        perror("fork");
        exit(2);
    }
    if (pid == 0)
    {
        const int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 2);
        Stats st;
        for (auto before : history)
            execute(before, nullptr, 0, nullptr, nullptr, false);
        auto  res = execute(seed, tape ? tape->data() : nullptr, tape ? tape->size() : 0, &r, stats ? &st : nullptr, verbose);
        if (verbose)
        {
            std::ofstream f(logfile);
            for (auto& l : res.lines)
                f << l << '\n';
        }
        if (stats)
        {
            std::ofstream f(scratch + "/child.stats");
            f << st.nontrivial << ' ' << st.events << ' ' << st.checks << ' ' << st.sim_ns << '\n';
            for (auto& x : st.faults)
                f << "F " << x.second << ' ' << x.first << '\n';
            for (auto& x : st.probes)
                f << "P " << x.second << ' ' << x.first << '\n';
        }
        _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR)
        ;
    Result res;
    if (tape_out)
        tape_out->assign(r.tape, r.tape + r.tape_len);
    if (spans_out)
    {
        spans_out->clear();
        for (uint32_t i = 0; i < r.span_len; ++i)
            spans_out->emplace_back(r.span_begin[i], r.span_end[i]);
    }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && r.finished)
    {
        res.violated = r.violated;
        res.v        = { r.cls, r.msg };
        res.hash     = r.hash;
        res.events   = r.events;
        if (verbose)
        {
            std::istringstream s(slurp(logfile));
            for (std::string l; std::getline(s, l);)
                res.lines.push_back(l);
        }
        if (stats)
        {
            std::ifstream f(scratch + "/child.stats");
            uint64_t      nt = 0, ev = 0, ck = 0, ns = 0;
            f >> nt >> ev >> ck >> ns;
            ++stats->runs;
            stats->nontrivial += nt;
            stats->events += ev;
            stats->checks += ck;
            stats->sim_ns += ns;
            if (nt)
                stats->hashes.push_back(r.hash);
            std::string k, name;
            uint64_t    n;
            while (f >> k >> n)
            {
                std::getline(f, name);
                (k == "F" ? stats->faults : stats->probes)[name.substr(1)] += n;
            }
        }
        return res;
    }
    res.violated = true;
    if (r.cls[0]) // a violation was recorded, then the process died while unwinding
        res.v = { r.cls, r.msg };
    else
        res.v.cls = crash_class(status, slurp(errfile), res.v.msg);
    return res;
}

//--------------------------------------------------------------------------

struct Minimal
{
    std::vector<uint32_t> tape;
    unsigned              attempts{};
};

Minimal minimise(uint64_t seed, std::vector<uint32_t> tape, const std::string& cls)
{
    Minimal        m;
    const unsigned max_attempts = 4000;
    const double   deadline     = wall() + (history.empty() ? 45 : 30);
    std::vector<std::pair<uint32_t, uint32_t>> spans;

    auto attempt = [&](const std::vector<uint32_t>& t) {
        if (m.attempts >= max_attempts || wall() > deadline)
            return false;
        ++m.attempts;
        std::vector<uint32_t>                      used;
        std::vector<std::pair<uint32_t, uint32_t>> sp;
        auto                                       r = in_child(seed, &t, false, &used, &sp);
        if (!r.violated || r.v.cls != cls)
            return false;
        // trailing zeros are implied
        while (!used.empty() && used.back() == 0)
            used.pop_back();
        if (used.size() > tape.size() || (used.size() == tape.size() && !(used < tape)))
            return false;
        tape  = used;
        spans = sp;
        return true;
    };

    // normalise
    {
        std::vector<uint32_t> used;
        in_child(seed, &tape, false, &used, &spans);
    }
    bool progress = true;
    for (int round = 0; progress && round < 6; ++round)
    {
        progress = false;
        // 1. truncate
        for (size_t cut = tape.size() / 2; cut > 0; cut /= 2)
        {
            while (tape.size() > cut)
            {
                std::vector<uint32_t> t(tape.begin(), tape.end() - long(cut));
                if (!attempt(t))
                    break;
                progress = true;
            }
        }
        // 2. delete operation spans, several at once first
        for (size_t group : { 64u, 16u, 4u, 2u, 1u })
        {
            for (long i = long(spans.size()) - 1; i >= 0; --i)
            {
                if (size_t(i) >= spans.size())
                {
                    i = long(spans.size());
                    continue;
                }
                // contiguous group of spans ending with i
                const size_t b = spans[size_t(std::max<long>(0, i - long(group) + 1))].first;
                const size_t e = spans[size_t(i)].second;
                if (b >= e || e > tape.size() + 64 || b >= tape.size())
                    continue;
                std::vector<uint32_t> t(tape.begin(), tape.begin() + long(b));
                if (e < tape.size())
                    t.insert(t.end(), tape.begin() + long(e), tape.end());
                if (attempt(t))
                {
                    progress = true;
                    i        = std::min<long>(i, long(spans.size()));
                }
                if (m.attempts >= max_attempts)
                    break;
            }
        }
        // 3. zero, then lower values
        for (size_t i = 0; i < tape.size(); ++i)
        {
            if (!tape[i])
                continue;
            auto t = tape;
            t[i]   = 0;
            if (attempt(t))
            {
                progress = true;
                continue;
            }
            uint32_t lo = 0;
            while (i < tape.size() && tape[i] > lo + 1)
            {
                t                  = tape;
                const uint32_t mid = lo + (tape[i] - lo) / 2;
                t[i]               = mid;
                if (attempt(t))
                    progress = true;
                else
                    lo = mid;
                if (m.attempts >= max_attempts)
                    break;
            }
            if (m.attempts >= max_attempts || wall() > deadline)
                break;
        }
    }
    m.tape = tape;
    return m;
}

//--------------------------------------------------------------------------

std::string json_escape(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += char(c);
        }
        else if (c < 0x20 || c >= 0x7F)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
            r += char(c);
    }
    return r;
}

void write_replay(const std::string& path, uint64_t index, uint64_t seed, const Result& r, const Minimal& m, size_t orig)
{
    std::ofstream f(path);
    f << "property " << scenario().property << "\n";
    f << "config " << mem::config_name() << "\n";
    f << "verif_seed " << base_seed << "\n";
    f << "run " << index << "\n";
    f << "seed " << seed << "\n";
    f << "class " << r.v.cls << "\n";
    f << "hash " << std::hex << r.hash << std::dec << "\n";
    f << "# " << r.v.msg << "\n";
    f << "# decision tape minimised from " << orig << " to " << m.tape.size() << " decisions in " << m.attempts << " attempts\n";
    if (!history.empty())
    {
        f << "# in the same process these runs have to come before, the code keeps something of them (" << history.size() << ")\n";
        f << "history " << history.size();
        for (auto v : history)
            f << ' ' << v;
        f << '\n';
    }
    f << "tape " << m.tape.size();
    for (auto v : m.tape)
        f << ' ' << v;
    f << "\n# event trace of the minimised run:\n";
    size_t n = 0;
    for (auto& l : r.lines)
    {
        if (++n > 400)
        {
            f << "#   ... (" << r.lines.size() - 400 << " more)\n";
            break;
        }
        f << "#   " << l << "\n";
    }
}

bool read_replay(const std::string& path, uint64_t& seed, std::string& cls, uint64_t& hash, std::vector<uint32_t>& tape)
{
    std::ifstream f(path);
    if (!f)
        return false;
    bool have_tape = false;
    for (std::string l; std::getline(f, l);)
    {
        std::istringstream s(l);
        std::string        k;
        s >> k;
        if (k == "seed")
            s >> seed;
        else if (k == "class")
        {
            s >> std::ws;
            std::getline(s, cls);
        }
        else if (k == "hash")
            s >> std::hex >> hash;
        else if (k == "history")
        {
            size_t n = 0;
            s >> n;
            history.resize(n);
            for (auto& v : history)
                s >> v;
        }
        else if (k == "tape")
        {
            size_t n;
            s >> n;
            tape.resize(n);
            for (auto& v : tape)
                s >> v;
            have_tape = bool(s);
            if (n == 0)
                have_tape = true;
        }
    }
    return have_tape;
}

//! the runs before run i in the process of its worker
std::vector<uint64_t> runs_before(uint64_t i, unsigned workers)
{
    std::vector<uint64_t> v;
    for (uint64_t k = i % workers; k < i; k += workers)
        v.push_back(run_seed(k));
    return v;
}

//! a violation that needs earlier runs in the same process: the shortest history found; false: not reproducible
bool find_history(uint64_t i, unsigned workers)
{
    const auto   seed     = run_seed(i);
    const auto   all      = runs_before(i, workers);
    const double deadline = wall() + 60;
    std::string  cls;
    auto         fails = [&] {
        auto r = in_child(seed, nullptr, false, nullptr, nullptr);
        if (r.violated && cls.empty())
            cls = r.v.cls;
        return r.violated && r.v.cls == cls;
    };
    size_t n = 1;
    for (;; n *= 4)
    {
        history.assign(n < all.size() ? all.end() - long(n) : all.begin(), all.end());
        if (fails())
            break;
        if (n >= all.size())
            return false;
    }
    for (size_t part = history.size() / 2; part; part /= 2)
        for (size_t at = 0; at < history.size() && history.size() > 1 && wall() < deadline;)
        {
            const auto keep = history;
            history.erase(history.begin() + long(at), history.begin() + long(std::min(at + part, keep.size())));
            if (history.empty() || !fails())
            {
                history = keep;
                at += part;
            }
        }
    return true;
}

int cmd_replay(const std::string& path, bool quiet)
{
    uint64_t              seed = 0, hash = 0;
    std::string           cls;
    std::vector<uint32_t> tape;
    if (!read_replay(path, seed, cls, hash, tape))
    {
        fprintf(stderr, "cannot read replay file %s\n", path.c_str());
        return 2;
    }
    auto r1 = in_child(seed, &tape, true, nullptr, nullptr);
    if (!quiet)
    {
        for (auto& l : r1.lines)
            printf("%s\n", l.c_str());
        printf("class: %s\nmessage: %s\nhash: %llx\n", r1.violated ? r1.v.cls.c_str() : "none", r1.v.msg.c_str(), (unsigned long long)r1.hash);
    }
    if (!r1.violated)
        return 0;
    return (r1.v.cls == cls && r1.hash == hash) ? 1 : 3;
}

} // namespace

//--------------------------------------------------------------------------

int main(int argc, char** argv)
{
    uint64_t    runs = 0, seed_index = ~0ull, factor = 1;
    unsigned    workers = 4;
    std::string replay, json, replay_out = "violation.replay", hash_file;
    bool        quiet = false, show = false;
    scratch           = "/tmp";
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto        val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--runs")
            runs = std::stoull(val());
        else if (a == "--factor")
            factor = std::stoull(val());
        else if (a == "--seed")
            base_seed = std::stoull(val());
        else if (a == "--workers")
            workers = unsigned(std::stoul(val()));
        else if (a == "--replay")
            replay = val();
        else if (a == "--json")
            json = val();
        else if (a == "--replay-out")
            replay_out = val();
        else if (a == "--scratch")
            scratch = val();
        else if (a == "--hashes")
            hash_file = val();
        else if (a == "--quiet")
            quiet = true;
        else if (a == "--show")
        {
            show       = true;
            seed_index = std::stoull(val());
        }
        else
        {
            fprintf(stderr, "unknown argument %s\n", a.c_str());
            return 2;
        }
    }
    if (!runs)
    {
        runs = scenario().quick_runs * factor;
        if (!strcmp(mem::config_name(), "default") && !scenario().isolate) // sanitized, several times slower
            runs = runs * 2 / 5;
    }
    workers = std::max(1u, std::min(workers, 64u));

    // no core files
    rlimit rl{ 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);

    shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (shared == MAP_FAILED)
    {
        perror("mmap");
        return 2;
    }
    shared->min_violation = ~0ull;

    if (!replay.empty())
        return cmd_replay(replay, quiet);
    if (show)
    {
        auto r = in_child(run_seed(seed_index), nullptr, true, nullptr, nullptr);
        for (auto& l : r.lines)
            printf("%s\n", l.c_str());
        printf("class: %s %s\nhash: %llx\n", r.violated ? r.v.cls.c_str() : "none", r.v.msg.c_str(), (unsigned long long)r.hash);
        return r.violated ? 1 : 0;
    }

    const double t0 = wall();

    // ---- the batch -------------------------------------------------------
    std::vector<pid_t> pids;
    for (unsigned w = 0; w < workers; ++w)
    {
        fflush(nullptr);
        shared->current[w] = ~0ull;
        const pid_t pid    = fork();
        if (pid < 0)
        {
            perror("fork");
            return 2;
        }
        if (pid == 0)
        {
            const std::string errfile = scratch + "/w" + std::to_string(w) + ".err";
            const int         fd      = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(fd, 2);
            Stats                                      st;
            std::vector<std::pair<uint64_t, uint64_t>> all; // (index, hash)
            Shared* const global = shared;
            if (scenario().isolate)
            {
                auto* mine = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
                shared     = mine;
                scratch += "/iso" + std::to_string(w);
                mkdir(scratch.c_str(), 0700);
            }
            for (uint64_t i = w; i < runs; i += workers)
            {
                if (i >= __atomic_load_n(&global->min_violation, __ATOMIC_RELAXED))
                    break;
                global->current[w] = i;
                auto r = scenario().isolate ? in_child(run_seed(i), nullptr, false, nullptr, nullptr, &st)
                                            : execute(run_seed(i), nullptr, 0, nullptr, &st, false);
                all.emplace_back(i, r.hash);
                if (r.violated)
                {
                    uint64_t cur = __atomic_load_n(&global->min_violation, __ATOMIC_RELAXED);
                    while (i < cur && !__atomic_compare_exchange_n(&global->min_violation, &cur, i, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED))
                        ;
                    break;
                }
            }
            global->current[w] = ~0ull;
            std::string dir    = scenario().isolate ? scratch + "/.." : scratch;
            {
                std::ofstream f(dir + "/w" + std::to_string(w) + ".stats");
                f << st.runs << ' ' << st.nontrivial << ' ' << st.events << ' ' << st.checks << ' ' << st.sim_ns << '\n';
                for (auto& x : st.faults)
                    f << "F " << x.second << ' ' << x.first << '\n';
                for (auto& x : st.probes)
                    f << "P " << x.second << ' ' << x.first << '\n';
            }
            {
                std::ofstream f(dir + "/w" + std::to_string(w) + ".bin", std::ios::binary);
                uint64_t      n = st.hashes.size();
                f.write(reinterpret_cast<char*>(&n), 8);
                f.write(reinterpret_cast<char*>(st.hashes.data()), std::streamsize(8 * n));
                n = all.size();
                f.write(reinterpret_cast<char*>(&n), 8);
                f.write(reinterpret_cast<char*>(all.data()), std::streamsize(16 * n));
                n = st.states.size();
                f.write(reinterpret_cast<char*>(&n), 8);
                f.write(reinterpret_cast<char*>(st.states.data()), std::streamsize(n));
            }
            _exit(0);
        }
        pids.push_back(pid);
    }
    for (unsigned w = 0; w < workers; ++w)
    {
        int status = 0;
        // wait for any worker so that a crash stops the others early
        pid_t p;
        while ((p = waitpid(-1, &status, 0)) < 0 && errno == EINTR)
            ;
        for (unsigned k = 0; k < workers; ++k)
            if (pids[k] == p && !(WIFEXITED(status) && WEXITSTATUS(status) == 0))
            {
                const uint64_t i   = shared->current[k];
                uint64_t       cur = __atomic_load_n(&shared->min_violation, __ATOMIC_RELAXED);
                if (i == ~0ull)
                {
                    fprintf(stderr, "worker %u died outside a run: %s\n", k, slurp(scratch + "/w" + std::to_string(k) + ".err").c_str());
                    return 2;
                }
                while (i < cur && !__atomic_compare_exchange_n(&shared->min_violation, &cur, i, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED))
                    ;
            }
    }
    const double t1 = wall();

    // ---- merge -----------------------------------------------------------
    Stats                        st;
    std::map<uint64_t, uint64_t> all;
    std::vector<uint64_t>        hashes;
    for (unsigned w = 0; w < workers; ++w)
    {
        const auto    base = scratch + "/w" + std::to_string(w);
        std::ifstream f(base + ".stats");
        uint64_t      a = 0, b = 0, c = 0, d = 0, e = 0;
        f >> a >> b >> c >> d >> e;
        st.runs += a;
        st.nontrivial += b;
        st.events += c;
        st.checks += d;
        st.sim_ns += e;
        std::string k, name;
        uint64_t    n;
        while (f >> k >> n)
        {
            std::getline(f, name);
            (k == "F" ? st.faults : st.probes)[name.substr(1)] += n;
        }
        std::ifstream g(base + ".bin", std::ios::binary);
        n = 0;
        g.read(reinterpret_cast<char*>(&n), 8);
        size_t old = hashes.size();
        hashes.resize(old + n);
        g.read(reinterpret_cast<char*>(hashes.data() + old), std::streamsize(8 * n));
        n = 0;
        g.read(reinterpret_cast<char*>(&n), 8);
        std::vector<std::pair<uint64_t, uint64_t>> v(n);
        g.read(reinterpret_cast<char*>(v.data()), std::streamsize(16 * n));
        for (auto& x : v)
            all[x.first] = x.second;
        n = 0;
        g.read(reinterpret_cast<char*>(&n), 8);
        std::vector<uint8_t> bm(n);
        g.read(reinterpret_cast<char*>(bm.data()), std::streamsize(n));
        if (st.states.size() < n)
            st.states.resize(n);
        for (size_t i = 0; i < n; ++i)
            st.states[i] |= bm[i];
    }
    std::sort(hashes.begin(), hashes.end());
    const uint64_t distinct = uint64_t(std::unique(hashes.begin(), hashes.end()) - hashes.begin());
    uint64_t       states   = 0;
    for (auto b : st.states)
        states += unsigned(__builtin_popcount(b));
    if (!hash_file.empty())
    {
        std::ofstream f(hash_file);
        for (auto& x : all)
            f << x.first << ' ' << std::hex << x.second << std::dec << '\n';
    }

    // ---- determinism gate: same seed again, fresh child process ------------
    uint64_t rechecked = 0, kept = 0;
    if (shared->min_violation == ~0ull)
    {
        const uint64_t n = std::min<uint64_t>(runs, 40);
        for (uint64_t j = 0; j < n; ++j)
        {
            const uint64_t i = j * runs / n;
            auto           r = in_child(run_seed(i), nullptr, false, nullptr, nullptr);
            if (r.violated)
            {
                shared->min_violation = i; // in a process of its own
                break;
            }
            if (r.hash != all[i] && !scenario().isolate)
            {
                // not what it was in the batch: then the code keeps something from earlier runs, and with these it has to be the same again
                history = runs_before(i, workers);
                r       = in_child(run_seed(i), nullptr, false, nullptr, nullptr);
                history.clear();
                ++kept;
            }
            if (r.violated || r.hash != all[i])
            {
                fprintf(stderr, "NONDETERMINISM: run %llu: %llx vs %llx %s\n", (unsigned long long)i, (unsigned long long)r.hash, (unsigned long long)all[i], r.v.msg.c_str());
                return 2;
            }
            ++rechecked;
        }
    }

    // ---- violation: confirm, minimise, replay ------------------------------
    int         rc = 0;
    std::string vclass, vmsg;
    if (shared->min_violation != ~0ull)
    {
        const uint64_t        i    = shared->min_violation;
        const uint64_t        seed = run_seed(i);
        std::vector<uint32_t> tape;
        auto                  r = in_child(seed, nullptr, false, &tape, nullptr);
        auto                  r2 = in_child(seed, nullptr, false, nullptr, nullptr);
        if (!r.violated && !scenario().isolate && find_history(i, workers))
        {
            r  = in_child(seed, nullptr, false, &tape, nullptr);
            r2 = in_child(seed, nullptr, false, nullptr, nullptr);
        }
        if (!r.violated || !r2.violated || r.v.cls != r2.v.cls || r.hash != r2.hash)
        {
            fprintf(stderr, "NONDETERMINISM: violation of run %llu does not reproduce (%s / %s)\n", (unsigned long long)i, r.v.cls.c_str(), r2.v.cls.c_str());
            return 2;
        }
        auto m  = minimise(seed, tape, r.v.cls);
        auto rm = in_child(seed, &m.tape, true, nullptr, nullptr);
        if (!rm.violated || rm.v.cls != r.v.cls)
        {
            m.tape = tape;
            rm     = in_child(seed, &m.tape, true, nullptr, nullptr);
        }
        write_replay(replay_out, i, seed, rm, m, tape.size());
        vclass = rm.v.cls;
        vmsg   = rm.v.msg;
        rc     = 1;
    }

    // ---- samples -----------------------------------------------------------
    std::vector<std::vector<std::string>> samples;
    if (!rc)
        for (uint64_t i = 0; i < runs && samples.size() < 2; i += std::max<uint64_t>(1, runs / 7))
        {
            auto r = in_child(run_seed(i), nullptr, true, nullptr, nullptr);
            if (r.lines.size() >= 5)
                samples.push_back(r.lines);
        }

    if (!json.empty())
    {
        std::ofstream f(json);
        f << "{\n \"property\": \"" << scenario().property << "\", \"config\": \"" << mem::config_name() << "\",\n";
        f << " \"runs\": " << st.runs << ", \"nontrivial\": " << st.nontrivial << ", \"distinct\": " << distinct << ", \"events\": " << st.events
          << ", \"checks\": " << st.checks << ", \"sim_ns\": " << st.sim_ns << ", \"states\": " << states << ", \"rechecked\": " << rechecked << ", \"history_dependent\": " << kept
          << ", \"batch_s\": " << (t1 - t0) << ", \"workers\": " << workers << ",\n";
        f << " \"faults\": {";
        const char* sep = "";
        for (auto& x : st.faults)
        {
            f << sep << "\"" << json_escape(x.first) << "\": " << x.second;
            sep = ", ";
        }
        f << "},\n \"probes\": {";
        sep = "";
        for (auto& x : st.probes)
        {
            f << sep << "\"" << json_escape(x.first) << "\": " << x.second;
            sep = ", ";
        }
        f << "},\n \"rule\": \"" << json_escape(scenario().rule) << "\",\n \"real\": \"" << json_escape(scenario().real) << "\",\n \"stub\": \""
          << json_escape(scenario().stub) << "\",\n \"assumptions\": \"" << json_escape(scenario().assumptions) << "\",\n";
        f << " \"violation\": " << (rc ? "true" : "false") << ", \"class\": \"" << json_escape(vclass) << "\", \"message\": \"" << json_escape(vmsg)
          << "\", \"index\": " << (rc ? shared->min_violation : 0) << ",\n \"samples\": [";
        sep = "";
        for (auto& s : samples)
        {
            f << sep << "[";
            sep            = ", ";
            const char* s2 = "";
            size_t      n  = 0;
            for (auto& l : s)
            {
                if (++n > 40)
                    break;
                f << s2 << "\"" << json_escape(l) << "\"";
                s2 = ", ";
            }
            f << "]";
        }
        f << "]\n}\n";
    }
    return rc;
}
