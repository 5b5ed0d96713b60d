// See race_rt.hpp.  Compiled without instrumentation.
#include "race_rt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <dlfcn.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>

namespace rt {
bool recording = false; unsigned paused = 0; unsigned cur = 0; bool bad = false; char message[1024];
std::uint64_t accesses = 0; void (*point)() = nullptr; unsigned points_on = 0; int (*mutex_wait)(void*) = nullptr;
static __thread bool mine = false;

typedef std::uint32_t Clock;
static Clock vc[MAX_THREADS][MAX_THREADS]; static unsigned nth = 1;   // threads so far
struct Range { std::uintptr_t lo, hi; };
static Range stacks[MAX_THREADS];

// ---- arena: never reuses memory within an execution
static char* arena = nullptr; static const std::size_t ARENA = std::size_t(1) << 32; static std::size_t used = 0;
static void arena_init()
{
    if (arena) return;
    arena = static_cast<char*>(mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (arena == MAP_FAILED) { std::fprintf(stderr, "harness error: no arena\n"); std::_Exit(4); }
}
static bool in_arena(const void* p) { return arena && p >= arena && p < arena + ARENA; }

// ---- shadow
struct Rec { std::uint16_t tid; std::uint8_t write, mask, atomic; Clock clk; void* pc; };
struct Cell { std::uint64_t key; std::uint32_t gen; std::uint8_t n, freed, more; bool multi, written; Rec r[8]; };
static Cell* table = nullptr; static const std::size_t CELLS = std::size_t(1) << 20; static std::uint32_t gen = 1; static std::size_t live = 0;
static Cell* cell(std::uint64_t key)
{
    std::size_t h = std::size_t((key * 0x9e3779b97f4a7c15ull) >> 44) & (CELLS - 1);
    for (;;)
    {
        Cell& c = table[h];
        if (c.gen != gen)
        {
            if (++live > CELLS * 3 / 4 && bad) { std::fprintf(stderr, "MC-RACE: %s\n", message); std::_Exit(9); }   // a run gone astray after a race
            if (live > CELLS * 3 / 4) { std::fprintf(stderr, "harness error: shadow table full\n"); std::_Exit(4); }
            c.gen = gen; c.key = key; c.n = 0; c.freed = 0; c.multi = c.written = false; c.more = 0; return &c;
        }
        if (c.key == key) return &c;
        h = (h + 1) & (CELLS - 1);
    }
}
// visible granules, by position in the arena (deterministic between executions) or address
static std::uint64_t* vis = nullptr; static std::size_t nvis = 0; static const std::size_t VIS = std::size_t(1) << 18;
static bool is_visible(std::uint64_t key)
{
    std::size_t h = std::size_t((key * 0x9e3779b97f4a7c15ull) >> 44) & (VIS - 1);
    while (vis[h]) { if (vis[h] == key) return true; h = (h + 1) & (VIS - 1); }
    return false;
}
void forget_visible() { if (nvis) std::memset(vis, 0, VIS * 8); nvis = 0; }
static void add_visible(std::uint64_t key)
{
    if (nvis > VIS / 2) return;
    std::size_t h = std::size_t((key * 0x9e3779b97f4a7c15ull) >> 44) & (VIS - 1);
    while (vis[h]) { if (vis[h] == key) return; h = (h + 1) & (VIS - 1); }
    vis[h] = key; ++nvis;
}
void keep_visible() { for (std::size_t i = 0; i < CELLS; ++i) if (table[i].gen == gen && table[i].multi && table[i].written) add_visible(table[i].key); }
std::size_t visible_count() { return nvis; }

void reset()
{
    arena_init(); mine = true; __libc_single_threaded = 0;
    if (!table) { table = static_cast<Cell*>(mmap(nullptr, CELLS * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); vis = static_cast<std::uint64_t*>(mmap(nullptr, VIS * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); if (table == MAP_FAILED || vis == MAP_FAILED) std::_Exit(4); }
    ++gen; live = 0; used = 0; cur = 0; bad = false; message[0] = 0; accesses = 0;
    for (unsigned i = 0; i < nth; ++i) { std::memset(vc[i], 0, nth * sizeof(Clock)); stacks[i] = Range{0, 0}; } nth = 1; vc[0][0] = 1;
}
static void join_clock(Clock* a, const Clock* b) { for (unsigned i = 0; i < nth; ++i) if (b[i] > a[i]) a[i] = b[i]; }
void fork(unsigned p, unsigned c) { if (c >= nth) nth = c + 1; vc[c][c] = 1; join_clock(vc[c], vc[p]); ++vc[p][p]; }
void join(unsigned p, unsigned c) { join_clock(vc[p], vc[c]); ++vc[c][c]; }
void stack(unsigned t, const void* lo, const void* hi) { stacks[t] = Range{std::uintptr_t(lo), std::uintptr_t(hi)}; }

static const char* where(void* pc, char* b, std::size_t n)
{
    Dl_info i; if (dladdr(pc, &i) && i.dli_sname) std::snprintf(b, n, "%s+%zu", i.dli_sname, std::size_t(static_cast<char*>(pc) - static_cast<char*>(i.dli_saddr))); else std::snprintf(b, n, "%p", pc);
    return b;
}
static void report(const char* what, const Rec* o, bool write, void* pc)
{
    if (bad) return;
    bad = true; char a[300], b[300]; where(pc, a, sizeof a);
    if (o) std::snprintf(message, sizeof message, "%s: %s by thread %u in %s, %s by thread %u in %s", what, write ? "write" : "read", cur, a, o->write ? "write" : "read", unsigned(o->tid), where(o->pc, b, sizeof b));
    else std::snprintf(message, sizeof message, "%s: %s by thread %u in %s", what, write ? "write" : "read", cur, a);
}
static void granule(std::uint64_t key, std::uint8_t mask, bool write, bool atomic, bool freeing, void* pc)
{
    Cell* c = cell(key);
    if (c->freed & mask) report(freeing ? "memory released twice" : "use of released memory", nullptr, write, pc);
    std::uint8_t k = 0; bool had = false;
    for (std::uint8_t i = 0; i < c->n; ++i)
    {
        Rec& r = c->r[i]; bool ordered = r.tid == cur || r.clk <= vc[cur][r.tid];
        if (r.tid != cur) c->multi = true;
        if ((r.mask & mask) && !ordered && (r.write || write) && !(r.atomic && atomic)) report("data race", &r, write, pc);
        bool drop = ordered && (r.mask & ~mask) == 0 && (write || !r.write);   // subsumed
        if (r.tid == cur && r.write == write && r.atomic == atomic && r.clk == vc[cur][cur] && !drop) { r.mask |= mask; r.pc = pc; had = true; }
        if (!drop) c->r[k++] = r;
    }
    c->n = k; if (write) c->written = true;
    if (!had) { if (c->n == 8) { std::memmove(c->r, c->r + 1, 7 * sizeof(Rec)); c->n = 7; } c->r[c->n++] = Rec{std::uint16_t(cur), write, mask, atomic, vc[cur][cur], pc}; }
    if (freeing) c->freed |= mask;
}
static void access_(const void* p, std::size_t n, bool write, bool atomic, void* pc, bool freeing)
{
    if (p == &paused || p == &cur || p == &recording || p == &points_on || p == &bad) return;   // the harness's own switches
    std::uintptr_t a = std::uintptr_t(p);
    if (cur && a >= stacks[cur].lo && a < stacks[cur].hi) return;   // a task's own frame
    ++accesses;
    if (points_on >= 2 && point && !freeing && (atomic || (points_on >= 3 && (is_visible(a >> 3) || (n > 8 && is_visible((a + n - 1) >> 3)))))) point();
    std::uintptr_t e = a + n;
    for (std::uintptr_t g = a >> 3; g <= (e - 1) >> 3; ++g)
    {
        std::uintptr_t lo = g << 3, b = a > lo ? a - lo : 0, x = e < lo + 8 ? e - lo : 8; std::uint8_t m = std::uint8_t(((1u << x) - 1) & ~((1u << b) - 1));
        granule(g, m, write, atomic, freeing, pc);
    }
}
static inline void access(const void* p, std::size_t n, bool write, bool atomic, void* pc, bool freeing = false)
{
    if (!recording || paused || !mine || n == 0) return;
    ++paused; access_(p, n, write, atomic, pc, freeing); --paused;
}
void dead_stack(const void* lo, const void* hi) { for (std::uintptr_t g = std::uintptr_t(lo) >> 3; g < std::uintptr_t(hi) >> 3; ++g) { Cell* c = cell(g); c->freed = 0xff; } }

// ---- synchronisation objects
struct Sync { std::uintptr_t a; std::uint32_t gen; unsigned n; Clock c[MAX_THREADS]; };
static Clock* grown(Sync& s) { for (; s.n < nth; ++s.n) s.c[s.n] = 0; return s.c; }
static Sync* syncs = nullptr; static const std::size_t SYNCS = 1 << 13;
static Clock* sync_of(const volatile void* p)
{
    if (!syncs) syncs = static_cast<Sync*>(mmap(nullptr, SYNCS * sizeof(Sync), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    std::uintptr_t a = std::uintptr_t(p); std::size_t h = std::size_t((a * 0x9e3779b97f4a7c15ull) >> 40) & (SYNCS - 1);
    for (std::size_t i = 0; i < SYNCS; ++i, h = (h + 1) & (SYNCS - 1)) { Sync& s = syncs[h]; if (s.gen != gen) { s.gen = gen; s.a = a; s.n = 0; return grown(s); } if (s.a == a) return grown(s); }
    std::fprintf(stderr, "harness error: too many synchronisation objects\n"); std::_Exit(4);
}
static void atomic_op(const volatile void* p, std::size_t n, bool write, int mo, void* pc)
{
    if (!recording || paused || !mine) return;
    access(const_cast<const void*>(p), n, write, true, pc);
    ++paused; Clock* l = sync_of(p); --paused; bool acq = mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST, rel = write && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST);
    if (acq) join_clock(vc[cur], l);
    if (rel) { join_clock(l, vc[cur]); ++vc[cur][cur]; }
}
static char* stack_pool[MAX_THREADS];
void* stack_alloc(unsigned i, std::size_t n) { if (!stack_pool[i]) { stack_pool[i] = static_cast<char*>(mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); if (stack_pool[i] == MAP_FAILED) std::_Exit(4); } return stack_pool[i]; }
} // namespace rt
using namespace rt;

static void* alloc(std::size_t n)
{
    if (recording && !paused && mine)
    {
        std::size_t s = (n + 31) & ~std::size_t(15); if (used + s > ARENA) { std::fprintf(stderr, "harness error: arena full\n"); std::_Exit(4); }
        char* p = arena + used; used += s; *reinterpret_cast<std::size_t*>(p) = n; ++paused; std::memset(p + 16, 0xA5, s - 16); --paused; return p + 16;
    }
    void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
static void release(void* p, void* pc) noexcept
{
    if (!p) return;
    if (in_arena(p)) { std::size_t n = *reinterpret_cast<std::size_t*>(static_cast<char*>(p) - 16); access(p, n, true, false, pc, true); return; }
    std::free(p);
}
void* operator new(std::size_t n) { return alloc(n); }
void* operator new[](std::size_t n) { return alloc(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return alloc(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return alloc(n); }
void operator delete(void* p) noexcept { release(p, __builtin_return_address(0)); }
void operator delete[](void* p) noexcept { release(p, __builtin_return_address(0)); }
void operator delete(void* p, std::size_t) noexcept { release(p, __builtin_return_address(0)); }
void operator delete[](void* p, std::size_t) noexcept { release(p, __builtin_return_address(0)); }
void operator delete(void* p, const std::nothrow_t&) noexcept { release(p, __builtin_return_address(0)); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { release(p, __builtin_return_address(0)); }

extern "C" {
#define PC __builtin_return_address(0)
void __tsan_init() { }
void __tsan_func_entry(void*) { }
void __tsan_func_exit() { }
#define RW(N) \
    void __tsan_read##N(void* p) { access(p, N, false, false, PC); } \
    void __tsan_write##N(void* p) { access(p, N, true, false, PC); } \
    void __tsan_unaligned_read##N(void* p) { access(p, N, false, false, PC); } \
    void __tsan_unaligned_write##N(void* p) { access(p, N, true, false, PC); } \
    void __tsan_volatile_read##N(void* p) { access(p, N, false, false, PC); } \
    void __tsan_volatile_write##N(void* p) { access(p, N, true, false, PC); } \
    void __tsan_read_write##N(void* p) { access(p, N, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, false, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, false, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, false, PC); }
#define AT(N, T) \
    T __tsan_atomic##N##_load(const volatile T* p, int mo) { atomic_op(p, sizeof(T), false, mo, PC); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##N##_store(volatile T* p, T v, int mo) { atomic_op(p, sizeof(T), true, mo, PC); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) { atomic_op(p, sizeof(T), true, mo, PC); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo) { atomic_op(p, sizeof(T), true, mo, PC); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo) { atomic_op(p, sizeof(T), true, mo, PC); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo) { atomic_op(p, sizeof(T), true, mo, PC); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo) { atomic_op(p, sizeof(T), true, mo, PC); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo) { atomic_op(p, sizeof(T), true, mo, PC); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) { atomic_op(p, sizeof(T), true, mo, PC); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int) { atomic_op(p, sizeof(T), true, mo, PC); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int mo, int) { atomic_op(p, sizeof(T), true, mo, PC); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { }
void __tsan_atomic_signal_fence(int) { }
void __tsan_acquire(void* p) { if (recording && !paused && mine) join_clock(vc[cur], sync_of(p)); }
void __tsan_release(void* p) { if (recording && !paused && mine) { join_clock(sync_of(p), vc[cur]); ++vc[cur][cur]; } }
void __tsan_mutex_create(void*, unsigned) { }
void __tsan_mutex_destroy(void*, unsigned) { }
void __tsan_mutex_pre_lock(void*, unsigned) { }
void __tsan_mutex_post_lock(void* p, unsigned, int) { __tsan_acquire(p); }
int __tsan_mutex_pre_unlock(void* p, unsigned) { __tsan_release(p); return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) { }
void __tsan_mutex_pre_signal(void*, unsigned) { }
void __tsan_mutex_post_signal(void*, unsigned) { }
void __tsan_mutex_pre_divert(void*, unsigned) { }
void __tsan_mutex_post_divert(void*, unsigned) { }

void* __real_memcpy(void*, const void*, std::size_t);
void* __real_memmove(void*, const void*, std::size_t);
void* __real_memset(void*, int, std::size_t);
int __real_memcmp(const void*, const void*, std::size_t);
void* __wrap_memcpy(void* d, const void* s, std::size_t n) { access(s, n, false, false, PC); access(d, n, true, false, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, std::size_t n) { access(s, n, false, false, PC); access(d, n, true, false, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, std::size_t n) { access(d, n, true, false, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, std::size_t n) { access(a, n, false, false, PC); access(b, n, false, false, PC); return __real_memcmp(a, b, n); }

// mutexes of the code under test: logical, so that a waiting task never blocks the process
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!recording || paused || !mine) return __real_pthread_mutex_lock(m);
    if (points_on && point) { ++paused; point(); --paused; }
    while (__real_pthread_mutex_trylock(m) != 0) { if (!mutex_wait) std::_Exit(4); ++paused; mutex_wait(m); --paused; }
    __tsan_acquire(m); return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { int r = __real_pthread_mutex_trylock(m); if (r == 0) __tsan_acquire(m); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { __tsan_release(m); return __real_pthread_mutex_unlock(m); }
}
