#include "vt.hpp"
#include "mc.hpp"
#include <dlfcn.h>
#include <link.h>
#include <ucontext.h>
#include <unordered_map>
#include <unordered_set>

namespace vt {
static const int MAXT = 16;
static const size_t STACK = 512 * 1024;

struct Thread {
    ucontext_t ctx;
    char *stack = nullptr;
    char *tls = nullptr;
    int id = 0;
    enum { READY, BLOCKED, BARRIER, DONE } st = READY;
    const void *wait = nullptr;
    uint64_t locks = 0;
    long loops = 0, singles = 0, chunk = 0, chunk_end = 0;
    bool ordered_on = false;
};
struct Granule {
    uint8_t r[MAXT], w[MAXT];
    uint64_t locks;
    bool plain;
    const void *pc[2];
};
struct Loop { // a work-sharing loop
    long next = 0, end = 0, incr = 1, chunk = 1, turn = 0;
    bool guided = false;
    int left = 0;
};

static int g_icv = 8; // threads asked for by the code
static int g_order = 0, g_delays = 0;
static bool g_on = false;
static Stats S;
static Thread T[MAXT];
static int NT = 0; // threads in the region (0: none)
static Thread *cur = nullptr;
static ucontext_t mainctx;
static void (*g_fn)(void *) = nullptr;
static void *g_data = nullptr;
static std::unordered_map<uintptr_t, Granule> *shadow = nullptr;
static std::unordered_map<const void *, int> *held = nullptr; // lock -> owner
static std::unordered_map<const void *, int> *lockid = nullptr;
static std::unordered_map<long, Loop> *loops = nullptr;
static std::unordered_set<long> *singles = nullptr;
static Loop preset;
static bool has_preset = false;
static bool inside = false; // in the runtime itself

// thread-local storage of the executable, one copy per virtual thread
static char *tls_base = nullptr;
static size_t tls_size = 0, tls_file = 0;
static const void *tls_init = nullptr;
static int phdr(dl_phdr_info *i, size_t, void *)
{
    for (int k = 0; k < i->dlpi_phnum; ++k)
        if (i->dlpi_phdr[k].p_type == PT_TLS) {
            const auto &p = i->dlpi_phdr[k];
            const size_t al = p.p_align ? p.p_align : 1;
            tls_size = (p.p_memsz + al - 1) / al * al;
            tls_file = p.p_filesz;
            tls_init = (const void *) (i->dlpi_addr + p.p_vaddr);
            tls_base = (char *) __builtin_thread_pointer() - tls_size;
        }
    return 1; // the executable only
}
static void switch_tls(Thread *from, Thread *to)
{
    if (!tls_size || from == to) return;
    memcpy(from->tls, tls_base, tls_size);
    memcpy(tls_base, to->tls, tls_size);
}

static std::string where(const void *pc)
{
    Dl_info d;
    char b[200];
    if (dladdr(pc, &d) && d.dli_sname) snprintf(b, sizeof(b), "%s+%#lx", d.dli_sname, (unsigned long) ((const char *) pc - (const char *) d.dli_saddr));
    else snprintf(b, sizeof(b), "%p", pc);
    return b;
}

// ---------------------------------------------------------------- scheduler
static void to(Thread *t)
{
    Thread *me = cur;
    if (t == me) return;
    ++S.switches;
    switch_tls(me, t);
    cur = t;
    swapcontext(&me->ctx, &t->ctx);
}
static int runnable(Thread **out)
{
    int n = 0;
    for (int k = 0; k < NT; ++k) {
        Thread *t = &T[g_order == 1 ? NT - 1 - k : k];
        if (t->st == Thread::READY) out[n++] = t;
    }
    return n;
}
// leave the current thread (blocked or done); returns when it is scheduled again
static void leave()
{
    Thread *r[MAXT];
    int n = runnable(r);
    if (n == 0) { // everybody waits or is done
        bool barrier = false, other = false;
        for (int k = 0; k < NT; ++k) {
            barrier |= T[k].st == Thread::BARRIER;
            other |= T[k].st == Thread::BLOCKED;
        }
        if (other) mc::fail("deadlock", "the threads of a parallel region wait for each other");
        if (barrier) {
            shadow->clear(); // accesses before and after a barrier are ordered
            for (int k = 0; k < NT; ++k)
                if (T[k].st == Thread::BARRIER) T[k].st = Thread::READY;
            n = runnable(r);
        } else { // region over
            Thread *me = cur;
            if (me != &T[0]) switch_tls(me, &T[0]);
            swapcontext(&me->ctx, &mainctx);
            return;
        }
    }
    int k = 0;
    if (g_order == 2 && n > 1 && g_delays > 0) {
        k = mc::choose(n);
        if (k) --g_delays;
    }
    to(r[k]);
}
static void visible()
{
    if (!NT || inside) return;
    ++S.visible;
    if (g_order != 2 || g_delays <= 0) return;
    Thread *r[MAXT];
    int n = runnable(r), m = 1;
    Thread *o[MAXT];
    o[0] = cur;
    for (int k = 0; k < n; ++k)
        if (r[k] != cur) o[m++] = r[k];
    if (m < 2) return;
    const int k = mc::choose(m);
    if (k) {
        --g_delays;
        to(o[k]);
    }
}
static void yield_next() // hand the processor to the next thread, round robin
{
    if (!NT || g_order == 2) return;
    for (int k = 1; k < NT; ++k) {
        Thread *t = &T[(cur->id + (g_order == 1 ? NT - k : k)) % NT];
        if (t->st == Thread::READY) {
            to(t);
            return;
        }
    }
}
static void entry()
{
    g_fn(g_data);
    cur->st = Thread::DONE;
    leave();
}
static void ensure();
static void region(void (*fn)(void *), void *data, int n)
{
    ensure();
    if (!g_on || NT || n <= 1) { // not under control, nested, or one thread
        Loop keep = preset;
        if (NT) { // nested: the team has one thread
            Thread *me = cur;
            fn(data);
            cur = me;
        } else {
            static Thread one;
            one.id = 0;
            one.loops = one.singles = 0;
            Thread *me = cur;
            cur = &one;
            loops->clear();
            singles->clear();
            if (has_preset) (*loops)[1] = keep, (*loops)[1].left = 1;
            fn(data);
            cur = me;
        }
        return;
    }
    if (n > MAXT) n = MAXT;
    ++S.regions;
    S.threads += n;
    shadow->clear();
    held->clear();
    loops->clear();
    singles->clear();
    if (has_preset) {
        (*loops)[1] = preset;
        (*loops)[1].left = n;
    }
    g_fn = fn;
    g_data = data;
    for (int k = 0; k < n; ++k) {
        Thread &t = T[k];
        if (!t.stack) t.stack = (char *) malloc(STACK);
        if (!t.tls && tls_size) {
            t.tls = (char *) calloc(1, tls_size);
            memcpy(t.tls, tls_init, tls_file);
        }
        t.id = k;
        t.st = Thread::READY;
        t.locks = 0;
        t.loops = t.singles = 0;
        t.ordered_on = false;
        getcontext(&t.ctx);
        t.ctx.uc_stack.ss_sp = t.stack;
        t.ctx.uc_stack.ss_size = STACK;
        t.ctx.uc_link = nullptr;
        makecontext(&t.ctx, entry, 0);
    }
    NT = n;
    if (tls_size) memcpy(T[0].tls, tls_base, tls_size);
    Thread *r[MAXT];
    runnable(r);
    int k = 0;
    if (g_order == 2 && g_delays > 0) {
        k = mc::choose(n);
        if (k) --g_delays;
    }
    if (r[k] != &T[0] && tls_size) memcpy(tls_base, r[k]->tls, tls_size);
    cur = r[k];
    swapcontext(&mainctx, &cur->ctx);
    NT = 0;
    cur = nullptr;
    ensure();
    S.granules += (long) shadow->size();
    mc::step();
}

// ---------------------------------------------------------------- accesses
static void touch(const void *p, size_t n, bool write, bool atomic, const void *pc)
{
    if (!NT || inside || n == 0) return;
    const uintptr_t a = (uintptr_t) p;
    if (a >= (uintptr_t) cur->stack && a < (uintptr_t) cur->stack + STACK) return; // own stack
    if (tls_size && a >= (uintptr_t) tls_base && a < (uintptr_t) tls_base + tls_size) return; // own thread-local data
    inside = true;
    ++S.accesses;
    for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; ++g) {
        const uintptr_t lo = std::max(a, g << 3) & 7, hi = std::min(a + n - 1, (g << 3) + 7) & 7;
        const uint8_t mask = (uint8_t) (((1u << (hi + 1)) - 1) & ~((1u << lo) - 1));
        auto it = shadow->find(g);
        if (it == shadow->end()) {
            Granule z;
            memset(&z, 0, sizeof(z));
            z.locks = ~0ULL;
            it = shadow->emplace(g, z).first;
        }
        Granule &x = it->second;
        (write ? x.w : x.r)[cur->id] |= mask;
        x.locks &= cur->locks;
        x.plain |= !atomic;
        if (!x.pc[write]) x.pc[write] = pc;
        if (S.racy) continue;
        for (int t = 0; t < NT; ++t) {
            if (t == cur->id) continue;
            if (((x.w[t] & mask) || (write && (x.r[t] & mask))) && (!x.plain || x.locks)) {
                ++S.ordered; // synchronised, but the order of the accesses may matter
            } else if ((x.w[t] & mask) || (write && (x.r[t] & mask))) {
                S.racy = true;
                char b[400];
                snprintf(b, sizeof(b), "one thread %s data (at %s) that another thread %s in the same region (first at %s)", write ? "writes" : "reads", where(pc).c_str(),
                         (x.w[t] & mask) ? "writes" : "reads", where(x.pc[(x.w[t] & mask) != 0]).c_str());
                S.race = b;
                break;
            }
        }
    }
    inside = false;
}
static void purge(const void *p, size_t n)
{
    if (!NT || inside || !p || shadow->empty()) return;
    inside = true;
    for (uintptr_t g = (uintptr_t) p >> 3; g <= ((uintptr_t) p + n) >> 3; ++g) shadow->erase(g);
    inside = false;
}

static int lock_bit(const void *l)
{
    auto it = lockid->find(l);
    if (it == lockid->end()) it = lockid->emplace(l, (int) (lockid->size() % 63)).first;
    return it->second;
}
static void lock(const void *l)
{
    if (!NT) return;
    visible();
    while (held->count(l)) {
        cur->st = Thread::BLOCKED;
        cur->wait = l;
        leave();
    }
    (*held)[l] = cur->id;
    cur->locks |= 1ULL << lock_bit(l);
}
static bool try_lock(const void *l)
{
    if (!NT) return true;
    visible();
    if (held->count(l)) return false;
    (*held)[l] = cur->id;
    cur->locks |= 1ULL << lock_bit(l);
    return true;
}
static void unlock(const void *l)
{
    if (!NT) return;
    held->erase(l);
    cur->locks &= ~(1ULL << lock_bit(l));
    for (int k = 0; k < NT; ++k)
        if (T[k].st == Thread::BLOCKED && T[k].wait == l) T[k].st = Thread::READY;
    visible();
}
static void barrier()
{
    if (!NT) return;
    cur->st = Thread::BARRIER;
    leave();
}

// ---------------------------------------------------------------- work sharing
static Loop *this_loop() { return &(*loops)[cur->loops]; }
static void ordered_start()
{
    if (!NT) return;
    visible();
    Loop *l = this_loop();
    while (l->turn != cur->chunk) {
        cur->st = Thread::BLOCKED;
        cur->wait = l;
        leave();
        l = this_loop();
    }
    cur->locks |= 1ULL << 63;
}
static void ordered_end()
{
    if (NT) cur->locks &= ~(1ULL << 63);
}
static bool loop_next(long *a, long *b)
{
    Loop *l = this_loop();
    if (cur->ordered_on) { // the previous chunk is finished: the next one may enter its ordered part
        l->turn = cur->chunk_end;
        cur->ordered_on = false;
        for (int k = 0; k < NT; ++k)
            if (T[k].st == Thread::BLOCKED && T[k].wait == l) T[k].st = Thread::READY;
    }
    const bool more = l->incr > 0 ? l->next < l->end : l->next > l->end;
    if (!more) return false;
    long c = l->chunk > 0 ? l->chunk : 1;
    if (l->guided) {
        const long left = (l->end - l->next) / l->incr;
        c = std::max(c, left / (NT ? NT : 1));
    }
    *a = l->next;
    long e = l->next + c * l->incr;
    if (l->incr > 0 ? e > l->end : e < l->end) e = l->end;
    *b = e;
    l->next = e;
    cur->chunk = *a;
    cur->chunk_end = e;
    cur->ordered_on = true;
    return true;
}
static bool loop_start(long s, long e, long incr, long chunk, bool guided, bool even, long *a, long *b)
{
    ensure();
    Thread *me = cur;
    ++me->loops;
    if (!loops->count(me->loops)) {
        Loop l;
        l.next = s;
        l.end = e;
        l.incr = incr;
        l.chunk = chunk;
        l.guided = guided;
        l.turn = s;
        if (even && chunk <= 0) {
            const long n = (e - s + incr - (incr > 0 ? 1 : -1)) / incr, t = NT ? NT : 1;
            l.chunk = (n + t - 1) / t;
        }
        (*loops)[me->loops] = l;
    }
    return loop_next(a, b);
}
static void parallel_loop(void (*fn)(void *), void *data, unsigned n, long s, long e, long incr, long chunk, bool guided, bool even)
{
    Loop l;
    l.next = l.turn = s;
    l.end = e;
    l.incr = incr;
    l.chunk = chunk;
    l.guided = guided;
    const int t = n ? (int) n : g_icv;
    if (even && chunk <= 0) {
        const long c = (e - s + incr - (incr > 0 ? 1 : -1)) / incr;
        l.chunk = (c + t - 1) / t;
    }
    preset = l;
    has_preset = true;
    // the body asks for its next chunk of the first loop at once
    for (Thread &x : T) x.loops = 0;
    auto wrap = +[](void *p) {
        auto *q = (std::pair<void (*)(void *), void *> *) p;
        if (cur) cur->loops = 1;
        q->first(q->second);
    };
    std::pair<void (*)(void *), void *> q(fn, data);
    region(wrap, &q, t);
    has_preset = false;
}

static Thread solo; // outside regions
static void ensure()
{
    if (!cur) cur = &solo;
    if (!shadow) {
        shadow = new std::unordered_map<uintptr_t, Granule>;
        held = new std::unordered_map<const void *, int>;
        lockid = new std::unordered_map<const void *, int>;
        loops = new std::unordered_map<long, Loop>;
        singles = new std::unordered_set<long>;
        dl_iterate_phdr(phdr, nullptr);
    }
}
void begin(int order, int delays)
{
    ensure();
    lockid->clear();
    g_order = order;
    g_delays = delays;
    g_on = true;
    S = Stats();
    for (Thread &t : T)
        if (t.tls) {
            memset(t.tls, 0, tls_size);
            memcpy(t.tls, tls_init, tls_file);
        }
}
Stats end()
{
    g_on = false;
    return S;
}
} // namespace vt
using namespace vt;

#define PC __builtin_return_address(0)
extern "C" {
void vt_draw(void)
{
    if (NT && !inside) {
        visible();
        static uint64_t generator;
        touch(&generator, 8, true, false, PC);
    }
}
// ---- instrumentation
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
#define ACC(n) \
    void __tsan_read##n(void *p) { touch(p, n, false, false, PC); } \
    void __tsan_write##n(void *p) { touch(p, n, true, false, PC); } \
    void __tsan_read##n##_pc(void *p, void *pc) { touch(p, n, false, false, pc); } \
    void __tsan_write##n##_pc(void *p, void *pc) { touch(p, n, true, false, pc); } \
    void __tsan_unaligned_read##n(void *p) { touch(p, n, false, false, PC); } \
    void __tsan_unaligned_write##n(void *p) { touch(p, n, true, false, PC); } \
    void __tsan_volatile_read##n(void *p) { touch(p, n, false, false, PC); } \
    void __tsan_volatile_write##n(void *p) { touch(p, n, true, false, PC); } \
    void __tsan_read_write##n(void *p) { touch(p, n, true, false, PC); } \
    void __tsan_unaligned_read_write##n(void *p) { touch(p, n, true, false, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, long n) { touch(p, (size_t) n, false, false, PC); }
void __tsan_write_range(void *p, long n) { touch(p, (size_t) n, true, false, PC); }
#define ATOM(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *p, int) { visible(); touch((const void *) p, sizeof(T), false, true, PC); return *p; } \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int) { visible(); touch((const void *) p, sizeof(T), true, true, PC); *p = v; } \
    T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { visible(); touch((const void *) p, sizeof(T), true, true, PC); T o = *p; *p = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { visible(); touch((const void *) p, sizeof(T), true, true, PC); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { visible(); touch((const void *) p, sizeof(T), true, true, PC); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { visible(); touch((const void *) p, sizeof(T), true, true, PC); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { visible(); touch((const void *) p, sizeof(T), true, true, PC); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) { visible(); touch((const void *) p, sizeof(T), true, true, PC); T o = *p; *p = o ^ v; return o; } \
    bool __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) \
    { visible(); touch((const void *) p, sizeof(T), true, true, PC); if (*p == *e) { *p = v; return true; } *e = *p; return false; } \
    bool __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int b) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, a, b); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int, int) \
    { visible(); touch((const void *) p, sizeof(T), true, true, PC); T o = *p; if (o == e) *p = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
// ---- memory functions of the code under test (renamed when it is compiled)
void *vt_memcpy(void *d, const void *s, size_t n)
{
    touch(s, n, false, false, PC);
    touch(d, n, true, false, PC);
    return memcpy(d, s, n);
}
void *vt_memmove(void *d, const void *s, size_t n)
{
    touch(s, n, false, false, PC);
    touch(d, n, true, false, PC);
    return memmove(d, s, n);
}
void *vt_memset(void *d, int c, size_t n)
{
    touch(d, n, true, false, PC);
    return memset(d, c, n);
}
void *vt_malloc(size_t n)
{
    void *p = malloc(n);
    purge(p, n);
    return p;
}
void *vt_calloc(size_t a, size_t b)
{
    void *p = calloc(a, b);
    purge(p, a * b);
    return p;
}
void *vt_realloc(void *q, size_t n)
{
    void *p = realloc(q, n);
    if (p != q) purge(p, n);
    return p;
}
// ---- OpenMP
int omp_get_num_threads(void) { return NT ? NT : 1; }
int omp_get_thread_num(void) { return NT ? cur->id : 0; }
int omp_get_max_threads(void) { return g_icv; }
void omp_set_num_threads(int n) { if (n > 0) g_icv = n; }
int omp_get_num_procs(void) { return g_icv; }
int omp_in_parallel(void) { return NT > 0; }
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int) {}
int omp_get_level(void) { return NT ? 1 : 0; }
int omp_get_thread_limit(void) { return MAXT; }
double omp_get_wtime(void) { return 0; }
void omp_init_lock(void *) {}
void omp_destroy_lock(void *) {}
void omp_set_lock(void *l) { lock(l); }
void omp_unset_lock(void *l) { unlock(l); }
int omp_test_lock(void *l) { return try_lock(l); }
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { region(fn, data, n ? (int) n : g_icv); }
#define PL(name, guided, even) \
    void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, unsigned) { parallel_loop(fn, data, n, s, e, i, c, guided, even); }
#define PLR(name) \
    void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, unsigned) { parallel_loop(fn, data, n, s, e, i, 1, false, false); }
PL(static, false, true) PL(dynamic, false, false) PL(guided, true, false) PL(nonmonotonic_dynamic, false, false) PL(nonmonotonic_guided, true, false)
PLR(runtime) PLR(nonmonotonic_runtime) PLR(maybe_nonmonotonic_runtime)
#define LP(name, guided, even) \
    bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, guided, even, a, b); } \
    bool GOMP_loop_##name##_next(long *a, long *b) { yield_next(); return loop_next(a, b); }
#define LPR(name) \
    bool GOMP_loop_##name##_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, false, false, a, b); } \
    bool GOMP_loop_##name##_next(long *a, long *b) { yield_next(); return loop_next(a, b); }
LP(static, false, true) LP(dynamic, false, false) LP(guided, true, false) LP(nonmonotonic_dynamic, false, false) LP(nonmonotonic_guided, true, false)
LP(ordered_static, false, true) LP(ordered_dynamic, false, false) LP(ordered_guided, true, false)
LPR(runtime) LPR(nonmonotonic_runtime) LPR(maybe_nonmonotonic_runtime) LPR(ordered_runtime)
#define LPU(name, guided) \
    bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *a, unsigned long long *b) \
    { (void) up; return loop_start((long) s, (long) e, (long) i, (long) c, guided, false, (long *) a, (long *) b); } \
    bool GOMP_loop_ull_##name##_next(unsigned long long *a, unsigned long long *b) { yield_next(); return loop_next((long *) a, (long *) b); }
LPU(dynamic, false) LPU(guided, true) LPU(nonmonotonic_dynamic, false) LPU(nonmonotonic_guided, true)
void GOMP_loop_end(void) { barrier(); }
void GOMP_loop_end_nowait(void) {}
bool GOMP_loop_end_cancel(void) { barrier(); return false; }
void GOMP_barrier(void) { barrier(); }
static char crit, atom;
void GOMP_critical_start(void) { lock(&crit); }
void GOMP_critical_end(void) { unlock(&crit); }
void GOMP_critical_name_start(void **p) { lock(p); }
void GOMP_critical_name_end(void **p) { unlock(p); }
void GOMP_atomic_start(void) { lock(&atom); }
void GOMP_atomic_end(void) { unlock(&atom); }
void GOMP_ordered_start(void) { ordered_start(); }
void GOMP_ordered_end(void) { ordered_end(); }
bool GOMP_single_start(void)
{
    if (!NT) return true;
    visible();
    return singles->insert(++cur->singles).second;
}
unsigned GOMP_sections_start(unsigned n)
{
    long a, b;
    return loop_start(1, (long) n + 1, 1, 1, false, false, &a, &b) ? (unsigned) a : 0;
}
unsigned GOMP_sections_next(void)
{
    long a, b;
    yield_next();
    return loop_next(&a, &b) ? (unsigned) a : 0;
}
void GOMP_sections_end(void) { barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned count, unsigned) { parallel_loop(fn, data, n, 1, (long) count + 1, 1, 1, false, false); }
void GOMP_taskwait(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *)
{
    visible();
    if (cpy) {
        std::vector<char> buf((size_t) (size + align));
        char *p = (char *) (((uintptr_t) buf.data() + (uintptr_t) align - 1) & ~((uintptr_t) align - 1));
        cpy(p, data);
        fn(p);
    } else {
        fn(data);
    }
}
}
