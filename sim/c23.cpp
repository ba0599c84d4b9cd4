// C23: threads that use objects of their own do not disturb each other
//
// Each thread of a run is one complete simulated world of another property (its components, links, faults and checks),
// with decisions of its own drawn from a seed of its own. The threads are real threads, but only one runs at a time: every
// basic block of the library is a point where the scheduler may take the processor away (the compiler calls
// __sanitizer_cov_trace_pc there), and the tape of the run says where that happens and who goes on. What a thread sees must
// be what it sees without the others.
#include "core.h"

#include <midi/jitter_reduction_timestamps.h>

#include <climits>
#include <exception>
#include <cstring>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <time.h>
#include <unistd.h>

#define EACH_WORLD(X) X(c01) X(c02) X(c03) X(c04) X(c05) X(c06) X(c07) X(c08) X(c09) X(c12) X(c13) X(c15) X(c16) X(c17) X(c18) X(c19) X(c20) X(c21) X(c22)

namespace sim {
#define X(n) const Scenario& scenario_##n();
EACH_WORLD(X)
#undef X
} // namespace sim
using namespace sim;

#define NO_PREEMPTION __attribute__((noinline))

namespace {

constexpr unsigned max_threads = 5;
constexpr int64_t  forever     = int64_t(1) << 60;
constexpr int64_t  too_long    = 400000; // a thread that gets this far without the others may be waiting for one of them

struct World
{
    const char* name;
    void (*run)(Ctx&);
};

struct Outcome
{
    bool        failed{};
    std::string cls, msg;
    uint64_t    hash{}, events{}, checks{};
};

struct Thread
{
    sem_t    go;
    World    world{};
    uint64_t seed{};
    Outcome  got;
    bool     live{}, stalled{};
    bool     in_lib{};
    int64_t  ns{};
};

Thread   threads[max_threads];
unsigned nthreads;
sem_t    all_done;
int      current = -1; // the thread that has the processor, -1: no simulation of threads going on
int64_t  budget  = forever; // basic blocks until it loses it
bool     only_library;
bool     long_slice;
int64_t  outside;
int64_t  budget_before;
int      to_stall;
uint32_t mean;
uint64_t switches, max_switches, inside, waits, shared_accesses;
Ctx*     the_ctx;

int64_t zero_ns;

NO_PREEMPTION void wait_for(sem_t* s)
{
    while (sem_wait(s))
        ;
}

NO_PREEMPTION void new_slice()
{
    const uint32_t k = switches < max_switches ? the_ctx->choose(2 * mean + 1) : 0;
    long_slice       = !k;
    outside          = too_long;
    budget           = k ? int64_t(k) : too_long;
}

NO_PREEMPTION int pick_next(int me)
{
    int  candidates[max_threads];
    int  n = 0;
    for (int pass = 0; pass < 2 && !n; ++pass)
        for (unsigned i = 0; i < nthreads; ++i)
            if (threads[i].live && int(i) != me && (pass == 1 || !threads[i].stalled))
                candidates[n++] = int(i);
    return n ? candidates[the_ctx->choose(uint32_t(n))] : -1;
}

//! hand the processor over; returns when this thread gets it back
NO_PREEMPTION void hand_over(int next)
{
    const int me       = current;
    threads[me].in_lib = mem::in_lib;
    threads[me].ns     = clk::get_ns();
    mem::in_lib        = threads[next].in_lib;
    clk::set_ns(threads[next].ns);
    ++switches;
    the_ctx->ev("go on", uint64_t(next), uint64_t(me));
    new_slice();
    current = next;
    sem_post(&threads[next].go);
    wait_for(&threads[me].go);
}

//! a stalled thread may hold what others wait for
NO_PREEMPTION void wake_stalled()
{
    for (unsigned i = 0; i < nthreads; ++i)
        if (threads[i].stalled)
            threads[i].stalled = false, to_stall = -1;
}

NO_PREEMPTION void preempt(bool waiting = false)
{
    budget = forever; // the scheduler is not a thread
    const int me = current;
    if (waiting)
        wake_stalled();
    if (me == to_stall && !threads[me].stalled)
    {
        threads[me].stalled = true;
        const bool in = mem::in_lib;
        mem::in_lib   = false;
        the_ctx->fault("thread stalled until the others have ended");
        mem::in_lib = in;
    }
    const int next = pick_next(me);
    if (next < 0)
    {
        new_slice();
        return;
    }
    const bool in = mem::in_lib;
    mem::in_lib   = false;
    the_ctx->fault(in ? "thread preempted inside a library call" : "thread preempted");
    mem::in_lib = in;
    inside += in;
    hand_over(next);
}

//! this thread waits for what another one has to do first
NO_PREEMPTION void blocked()
{
    if (current < 0)
    {
        sched_yield();
        return;
    }
    budget         = forever;
    wake_stalled();
    const int next = pick_next(current);
    ++waits;
    if (next < 0)
    {
        fprintf(stderr, "all threads wait for each other\n");
        abort();
    }
    hand_over(next);
}

void live(const World& w, uint64_t seed, Outcome& o)
{
    Ctx mine(seed, nullptr, 0, nullptr, nullptr, false);
    o = {};
    try
    {
        w.run(mine);
    }
    catch (const Violation&)
    {
    }
    catch (const std::exception& e)
    {
        o.failed = true;
        o.cls    = "exception";
        o.msg    = e.what();
    }
    if (mine.failed())
    {
        o.failed = true;
        o.cls    = mine.violation().cls;
        o.msg    = mine.violation().msg;
    }
    o.hash   = mine.hash();
    o.events = mine.events();
    o.checks = mine.checks();
}

extern "C" char __data_start, _end;
uintptr_t written[1024]; // words of static variables written in this run
unsigned  nwritten;

//! memory is about to be accessed: static variables are what threads with objects of their own can still share
NO_PREEMPTION void access(const void* p, bool write)
{
    if (p < &__data_start || p >= &_end || p == &mem::in_lib)
        return;
    if (current < 0 || mem::initialising || budget > too_long)
        return;
    // tables are only read
    auto w = reinterpret_cast<uintptr_t>(p) / 8;
    auto i = unsigned(w % 1024);
    while (written[i] && written[i] != w)
        i = (i + 1) % 1024;
    if (!written[i])
    {
        if (write && nwritten < 1000)
            written[i] = w, ++nwritten;
        return;
    }
    ++shared_accesses;
    if (switches >= max_switches)
        return;
    const int64_t rest = budget;
    budget             = forever;
    if (the_ctx->choose(4) == 3)
        preempt();
    else
        budget = rest;
}

NO_PREEMPTION void* thread_main(void* p)
{
    Thread& t = *static_cast<Thread*>(p);
    for (;;)
    {
        wait_for(&t.go);
        live(t.world, t.seed, t.got);
        budget         = forever;
        t.live         = false;
        const int next = pick_next(-1);
        if (next < 0)
        {
            current = -1;
            sem_post(&all_done);
            continue;
        }
        mem::in_lib = threads[next].in_lib;
        clk::set_ns(threads[next].ns);
        new_slice();
        current = next;
        sem_post(&threads[next].go);
    }
    return nullptr;
}

void have_threads()
{
    static pid_t made_in = 0;
    if (made_in == getpid())
        return;
    made_in = getpid();
    sem_init(&all_done, 0, 0);
    for (auto& t : threads)
    {
        sem_init(&t.go, 0, 0);
        pthread_t h;
        if (pthread_create(&h, nullptr, thread_main, &t))
        {
            fprintf(stderr, "simulator: no thread\n");
            abort();
        }
        pthread_detach(h);
    }
    // the clock counts from its first use in the process
    zero_ns = 1000000000000000000ll;
    clk::set_ns(zero_ns);
    (void)midi::jr_clock::now();
}

//! a thread that reads the clock, which all threads share
void clock_reader(Ctx& c)
{
    int64_t t = zero_ns;
    for (Ops ops(c, 60, 400); ops.next();)
    {
        t += int64_t(c.choose(c.pick({ 100u, 40000u, 5000000u, 4000000000u })));
        clk::set_ns(t);
        const auto v = midi::jr_clock::now();
        c.check();
        c.ev("clock", v.value);
        if (v.value != uint16_t((t - zero_ns) / 32000))
            c.fail("clock", "%lld ns after first use the clock reads %u", (long long)(t - zero_ns), v.value);
    }
}

const World worlds[] = {
#define X(n) { scenario_##n().property, scenario_##n().run },
    EACH_WORLD(X)
#undef X
    { "clock", clock_reader }
};

//! give the processor to the first thread and wait until all have ended
NO_PREEMPTION void run_together(int first)
{
    clk::set_ns(threads[first].ns);
    timespec until;
    clock_gettime(CLOCK_REALTIME, &until);
    until.tv_sec += 100;
    new_slice();
    current = first;
    sem_post(&threads[first].go);
    while (sem_timedwait(&all_done, &until))
        if (errno == ETIMEDOUT)
        {
            fprintf(stderr, "the threads do not end\n");
            abort();
        }
}

void run(Ctx& c)
{
    have_threads();
    constexpr uint32_t nworlds = sizeof worlds / sizeof *worlds;
    nthreads                   = 2 + c.choose(max_threads - 1);
    const bool     alike       = c.choose(3) != 0; // all threads do the same kind of thing
    const bool     same        = alike && c.choose(3) == 2; // down to the same decisions
    const uint32_t kind        = c.choose(nworlds);
    for (unsigned i = 0; i < nthreads; ++i)
    {
        threads[i].world = worlds[alike ? kind : c.choose(nworlds)];
        threads[i].seed  = i && same ? threads[0].seed : c.u64();
    }
    mean                 = c.pick({ 60u, 10u, 500u, 4000u, 30000u });
    only_library         = c.choose(3) == 2;
    to_stall             = c.choose(4) ? -1 : int(c.choose(nthreads));
    const bool alone_first = c.choose(2);

    Outcome alone[max_threads];
    auto    run_alone = [&] {
        for (unsigned i = 0; i < nthreads; ++i)
        {
            clk::set_ns(zero_ns);
            live(threads[i].world, threads[i].seed, alone[i]);
            mem::in_lib = false;
            c.ev("alone", i, alone[i].hash);
        }
    };
    if (alone_first)
        run_alone();

    for (unsigned i = 0; i < nthreads; ++i)
    {
        auto& t = threads[i];
        t.live = true, t.stalled = false, t.in_lib = false, t.ns = zero_ns;
    }
    memset(written, 0, sizeof written), nwritten = 0;
    switches = inside = waits = shared_accesses = 0;
    max_switches              = c.pick({ 300u, 40u, 2000u });
    the_ctx                   = &c;
    run_together(int(c.choose(nthreads)));
    mem::in_lib = false;
    the_ctx     = nullptr;
    c.probe("context switches", switches);
    c.probe("accesses to static variables", shared_accesses);
    c.probe("threads waiting for another", waits);

    if (!alone_first)
        run_alone();

    for (unsigned i = 0; i < nthreads; ++i)
    {
        const auto& t = threads[i];
        c.ev("together", i, t.got.hash, t.got.events);
        c.check(1 + t.got.checks);
        if (t.got.failed && !alone[i].failed)
            c.fail("disturbed", "thread %u (%s), right when alone, fails next to %u others: %s: %s", i, t.world.name, nthreads - 1, t.got.cls.c_str(), t.got.msg.c_str());
        if (t.got.failed != alone[i].failed || t.got.hash != alone[i].hash || t.got.cls != alone[i].cls || t.got.msg != alone[i].msg)
            c.fail("disturbed", "thread %u (%s) does not see next to %u others what it sees alone (%llu and %llu events)", i, t.world.name, nthreads - 1, (unsigned long long)t.got.events,
                   (unsigned long long)alone[i].events);
    }
    if (switches > 3)
        c.nontrivial();
    c.state(inside);
}

} // namespace

//--------------------------------------------------------------------------
// the places where a thread can lose the processor or has to wait

extern "C" {

void __sanitizer_cov_trace_pc()
{
    if (current < 0 || budget > too_long)
        return;
    if (only_library && !mem::in_lib)
    {
        if (--outside > 0)
            return;
        preempt(true);
        return;
    }
    if (--budget > 0)
        return;
    preempt(long_slice);
}

// Initialisation of local statics: another thread may be in the middle of it. It happens in the first run of a process that
// needs it, so it does not count as time of the thread: a run has the same schedule whatever ran before.
int __cxa_guard_acquire(long long* g)
{
    auto* b = reinterpret_cast<volatile uint8_t*>(g);
    ++budget; // the block that got here
    while (!b[0])
    {
        if (!b[1])
        {
            b[1] = 1;
            if (mem::initialising++ == 0)
            {
                budget_before = budget;
                budget        = forever;
            }
            return 1;
        }
        blocked();
    }
    return 0;
}
void __cxa_guard_release(long long* g)
{
    auto* b = reinterpret_cast<volatile uint8_t*>(g);
    b[0]    = 1;
    b[1]    = 0;
    if (--mem::initialising == 0)
        budget = budget_before;
}
void __cxa_guard_abort(long long* g)
{
    reinterpret_cast<volatile uint8_t*>(g)[1] = 0;
    if (--mem::initialising == 0)
        budget = budget_before;
}

int pthread_mutex_lock(pthread_mutex_t* m)
{
    int r;
    while ((r = pthread_mutex_trylock(m)) == EBUSY)
        blocked();
    return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    int r;
    while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY)
        blocked();
    return r;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    int r;
    while ((r = pthread_rwlock_trywrlock(m)) == EBUSY)
        blocked();
    return r;
}
int pthread_once(pthread_once_t* o, void (*f)())
{
    auto* p = reinterpret_cast<volatile int*>(o);
    while (*p != 2)
    {
        if (*p == 0)
        {
            *p = 1;
            const auto before = budget;
            budget            = forever;
            try
            {
                f();
            }
            catch (...)
            {
                budget = before;
                *p     = 0;
                throw;
            }
            budget = before;
            *p     = 2;
        }
        else
            blocked();
    }
    return 0;
}

// what the compiler calls before accesses to memory
#define ACCESS(n)                                                   \
    void __tsan_read##n(void* p) { access(p, false); }                     \
    void __tsan_write##n(void* p) { access(p, true); }                    \
    void __tsan_unaligned_read##n(void* p) { access(p, false); }           \
    void __tsan_unaligned_write##n(void* p) { access(p, true); }          \
    void __tsan_read_write##n(void* p) { access(p, true); }               \
    void __tsan_unaligned_read_write##n(void* p) { access(p, true); }     \
    void __tsan_volatile_read##n(void* p) { access(p, false); }            \
    void __tsan_volatile_write##n(void* p) { access(p, true); }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
void __tsan_read_range(void* p, size_t) { access(p, false); }
void __tsan_write_range(void* p, size_t) { access(p, true); }
void __tsan_vptr_update(void** p, void*) { access(p, true); }
void __tsan_vptr_read(void** p) { access(p, false); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_init() {}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// threads run one at a time: a plain operation is atomic
#define ATOMIC_OP(n, T, name, expr) \
    T __tsan_atomic##n##_##name(volatile T* p, T v, int) \
    {                               \
        access(const_cast<T*>(p), true);  \
        const T o = *p;             \
        *p        = T(expr);        \
        return o;                   \
    }
#define ATOMICS(n, T)                                                        \
    T __tsan_atomic##n##_load(const volatile T* p, int)                      \
    {                                                                        \
        access(const_cast<T*>(p), false);                                           \
        return *p;                                                           \
    }                                                                        \
    void __tsan_atomic##n##_store(volatile T* p, T v, int)                   \
    {                                                                        \
        access(const_cast<T*>(p), true);                                           \
        *p = v;                                                              \
    }                                                                        \
    ATOMIC_OP(n, T, exchange, v)                                             \
    ATOMIC_OP(n, T, fetch_add, o + v)                                        \
    ATOMIC_OP(n, T, fetch_sub, o - v)                                        \
    ATOMIC_OP(n, T, fetch_and, o & v)                                        \
    ATOMIC_OP(n, T, fetch_or, o | v)                                         \
    ATOMIC_OP(n, T, fetch_xor, o ^ v)                                        \
    ATOMIC_OP(n, T, fetch_nand, ~(o & v))                                    \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) \
    {                                                                        \
        access(const_cast<T*>(p), true);                                           \
        if (*p == *e)                                                        \
            return *p = v, 1;                                                \
        *e = *p;                                                             \
        return 0;                                                            \
    }                                                                        \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int a, int b) { return __tsan_atomic##n##_compare_exchange_strong(p, e, v, a, b); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int, int) \
    {                                                                        \
        access(const_cast<T*>(p), true);                                           \
        const T o = *p;                                                      \
        if (o == e)                                                          \
            *p = v;                                                          \
        return o;                                                            \
    }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
}

const Scenario& sim::scenario()
{
    static const Scenario s{ "C23",
                             "two to five threads, each a complete simulated world of another property, taken the processor away at seeded basic blocks; non-trivial: more than three context switches; distinct by hash of the "
                             "schedule and of what every thread saw; state: number of preemptions inside library calls",
                             run, 7000, false, "the whole library, in real threads that share nothing but the library", "the scheduler that decides which thread runs, links, clock, disk",
                             "a thread loses the processor between basic blocks, not inside one; the C++ runtime and standard library functions compiled elsewhere are atomic" };
    return s;
}
