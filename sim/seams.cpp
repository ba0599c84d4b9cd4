// Memory and clock seams: every allocation of the library and every clock read ends here.
#include "core.h"
#include "mem.h"

#include <chrono>
#include <cstdlib>
#include <new>

#include <midi/sysex.h>

namespace sim {
namespace mem {

bool in_lib       = false;
int  initialising = 0;

namespace {

struct Slot
{
    uintptr_t p;
    size_t    size;
    int       source;
};
constexpr size_t table_bits = 16;
constexpr size_t table_size = size_t(1) << table_bits;
Slot             table[table_size];
size_t           used = 0, used_bytes = 0;
Counters         ctr{};
uint64_t         by_source[3];
uint64_t         countdown = 0, fail_count = 0;
char             err[200];

size_t slot_of(uintptr_t p)
{
    return size_t((p >> 4) * 0x9E3779B97F4A7C15ull >> (64 - table_bits));
}

void set_error(const char* fmt, size_t a, size_t b)
{
    if (!err[0])
        snprintf(err, sizeof err, fmt, a, b);
}

void insert(void* q, size_t size, int source)
{
    if (used > table_size / 2)
    {
        fprintf(stderr, "simulator: allocation table full\n");
        abort();
    }
    auto   p = reinterpret_cast<uintptr_t>(q);
    size_t i = slot_of(p);
    while (table[i].p)
        i = (i + 1) & (table_size - 1);
    table[i] = { p, size, source };
    ++used;
    used_bytes += size;
}

Slot* lookup(const void* q)
{
    if (!used)
        return nullptr;
    auto   p = reinterpret_cast<uintptr_t>(q);
    size_t i = slot_of(p);
    while (table[i].p)
    {
        if (table[i].p == p)
            return &table[i];
        i = (i + 1) & (table_size - 1);
    }
    return nullptr;
}

void erase(Slot* s)
{
    --used;
    used_bytes -= s->size;
    size_t i = size_t(s - table), j = i;
    for (;;)
    {
        table[i].p = 0;
        for (;;)
        {
            j = (j + 1) & (table_size - 1);
            if (!table[j].p)
                return;
            size_t k = slot_of(table[j].p);
            if ((i <= j) ? ((i < k) && (k <= j)) : ((i < k) || (k <= j)))
                continue;
            break;
        }
        table[i] = table[j];
        i        = j;
    }
}

bool must_fail()
{
    if (!in_lib || initialising || !countdown)
        return false;
    if (--countdown == 0)
    {
        if (fail_count > 1)
        {
            --fail_count;
            countdown = 1;
        }
        ++ctr.failed;
        return true;
    }
    return false;
}

} // namespace

void* obtain(size_t size, int source, bool track)
{
    if (must_fail())
        throw std::bad_alloc{};
    void* p = malloc(size ? size : 1);
    if (!p)
        throw std::bad_alloc{};
    memset(p, 0xB5, size); // fresh memory has the same contents in every execution
    if (track)
    {
        insert(p, size, source);
        ++ctr.allocs;
        ++by_source[source];
        ctr.bytes += size;
    }
    return p;
}

void give_back(void* p, size_t size, bool sized, int source)
{
    if (!p)
        return;
    if (auto* s = lookup(p))
    {
        if (s->source != source)
            set_error("block returned to source %zu but obtained from source %zu", size_t(source), size_t(s->source));
        if (sized && s->size != size)
            set_error("block returned with size %zu but obtained with size %zu", size, s->size);
        ++ctr.frees;
        erase(s);
    }
    else if (source != heap)
    {
        set_error("block of size %zu returned to source %zu that never supplied it", size, size_t(source));
        return;
    }
    free(p);
}

bool find(const void* p, int& source, size_t& size)
{
    if (auto* s = lookup(p))
    {
        source = s->source;
        size   = s->size;
        return true;
    }
    return false;
}

uint64_t allocs_of(int source)
{
    return by_source[source];
}
uint64_t outstanding_of(int source)
{
    uint64_t n = 0;
    for (const auto& s : table)
        if (s.p && s.source == source)
            ++n;
    return n;
}

void begin_run()
{
    if (used)
    {
        memset(table, 0, sizeof table);
        used = used_bytes = 0;
    }
    ctr       = {};
    by_source[0] = by_source[1] = by_source[2] = 0;
    countdown = fail_count = 0;
    err[0]    = 0;
    in_lib    = false;
}

uint64_t    outstanding() { return used; }
uint64_t    outstanding_bytes() { return used_bytes; }
Counters    counters() { return ctr; }
const char* error() { return err[0] ? err : nullptr; }
void        fail_in(uint64_t n, uint64_t count)
{
    countdown  = n;
    fail_count = count;
}
bool armed() { return countdown != 0; }

//--------------------------------------------------------------------------

#if NIMIDI2_PMR_SYSEX_DATA
namespace {
class Resource : public std::pmr::memory_resource
{
  public:
    explicit Resource(int source) : m_source(source) {}

  private:
    void* do_allocate(size_t n, size_t) override { return obtain(n, m_source, true); }
    void  do_deallocate(void* p, size_t n, size_t) override { give_back(p, n, true, m_source); }
    bool  do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
    int   m_source;
};
Resource the_default{ configured };
Resource the_explicit{ explicit_resource };
struct Install
{
    Install() { std::pmr::set_default_resource(&the_default); }
} install;
} // namespace
void*       explicit_mr() { return &the_explicit; }
const char* config_name() { return "pmr"; }
int         sysex_source() { return configured; }
#elif NIMIDI2_CUSTOM_SYSEX_DATA_ALLOCATOR
void*       explicit_mr() { return nullptr; }
const char* config_name() { return "custom"; }
int         sysex_source() { return configured; }
#else
void*       explicit_mr() { return nullptr; }
const char* config_name() { return "default"; }
int         sysex_source() { return heap; }
#endif

} // namespace mem

namespace clk {
static int64_t current = 1000000000;
uint64_t       reads   = 0;
void           set_ns(int64_t ns) { current = ns; }
int64_t        get_ns() { return current; }
} // namespace clk

} // namespace sim

//--------------------------------------------------------------------------

#if NIMIDI2_CUSTOM_SYSEX_DATA_ALLOCATOR
uint8_t* midi::sysex::data_allocator::allocate(std::size_t n)
{
    return static_cast<uint8_t*>(sim::mem::obtain(n, sim::mem::configured, true));
}
void midi::sysex::data_allocator::deallocate(uint8_t* p, std::size_t n) noexcept
{
    sim::mem::give_back(p, n, true, sim::mem::configured);
}
#endif

//--------------------------------------------------------------------------

void* operator new(size_t n) { return sim::mem::obtain(n, sim::mem::heap, sim::mem::in_lib && !sim::mem::initialising); }
void* operator new[](size_t n) { return sim::mem::obtain(n, sim::mem::heap, sim::mem::in_lib && !sim::mem::initialising); }
void  operator delete(void* p) noexcept { sim::mem::give_back(p, 0, false, sim::mem::heap); }
void  operator delete[](void* p) noexcept { sim::mem::give_back(p, 0, false, sim::mem::heap); }
void  operator delete(void* p, size_t n) noexcept { sim::mem::give_back(p, n, true, sim::mem::heap); }
void  operator delete[](void* p, size_t n) noexcept { sim::mem::give_back(p, n, true, sim::mem::heap); }

//--------------------------------------------------------------------------
// initialisation of local statics (C23 has its own)

extern "C" {
__attribute__((weak)) int __cxa_guard_acquire(long long* g)
{
    if (*reinterpret_cast<volatile char*>(g))
        return 0;
    ++sim::mem::initialising;
    return 1;
}
__attribute__((weak)) void __cxa_guard_release(long long* g)
{
    *reinterpret_cast<volatile char*>(g) = 1;
    --sim::mem::initialising;
}
__attribute__((weak)) void __cxa_guard_abort(long long*)
{
    --sim::mem::initialising;
}
}

//--------------------------------------------------------------------------
// the only clocks the library can see

namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept
{
    ++sim::clk::reads;
    return time_point{ duration_cast<duration>(nanoseconds{ sim::clk::get_ns() }) };
}
steady_clock::time_point steady_clock::now() noexcept
{
    ++sim::clk::reads;
    return time_point{ duration_cast<duration>(nanoseconds{ sim::clk::get_ns() }) };
}
}}} // namespace std::chrono::_V2
