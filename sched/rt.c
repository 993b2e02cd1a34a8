// Controlled scheduler and data-race monitor behind the compiler's thread-sanitizer hooks.
//
// Every memory access and atomic operation of the Rust code (library, dependencies, std) calls a
// __tsan_* function.  Inside the controlled region exactly one of the registered threads runs at a
// time; at an access whose code location is known to conflict with another thread the explorer
// decides who runs next.  Futex waits and wakes, yields and sleeps are modelled here, so a blocked
// thread is visible: no runnable thread is a deadlock, endless spinning a livelock.
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
struct timespec;
void _exit(int) __attribute__((noreturn));
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <pthread.h>

#define MAXT 4
#define MAXPTS 20000
#define MAXPC 4096
#define MAXNEW 512
typedef struct {
    // given
    uint32_t nprefix, budget, cap, npcs;
    const uint32_t *prefix;
    const uint64_t *pcs;
    // reported
    uint32_t npts, nnew, nraces, deadlock, livelock, diverged, overflow, switches, blocked, used;
    uint64_t accesses;
    uint8_t n[MAXPTS], choice[MAXPTS], paid[MAXPTS];
    uint64_t newpcs[MAXNEW];
    uint64_t race[8][3];
} Out;

static Out *out;
static int nthreads;
static __thread int me = -1;
static __thread char *stack_lo, *stack_hi;
extern char __executable_start, __data_start, _end;
static uint64_t base_of(void *pc) { return (uint64_t)((char *)pc - &__executable_start); }

enum { UNBORN, READY, BLOCKED, DONE };
static struct Th {
    int state, timed, woken;
    uint32_t *futex;
    uint32_t baton;
    uint32_t vc[MAXT], acq[MAXT], rel[MAXT];
    uint64_t same, progress_seen;
} T[MAXT];
static uint32_t main_word, started;
static uint64_t progress; // bumped by every write
static uint64_t yields;

static long sys(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static void fwait(uint32_t *w) { while (!__atomic_load_n(w, __ATOMIC_ACQUIRE)) sys(SYS_futex, (long)w, FUTEX_WAIT, 0, 0, 0, 0); __atomic_store_n(w, 0, __ATOMIC_RELEASE); }
static void fpost(uint32_t *w) { __atomic_store_n(w, 1, __ATOMIC_RELEASE); sys(SYS_futex, (long)w, FUTEX_WAKE, 1, 0, 0, 0); }
static void finish(void) { _exit(0); }

// ---- known conflicting code locations ------------------------------------------------------
static uint64_t pctab[MAXPC * 2]; static uint16_t pcidx[MAXPC * 2]; static uint32_t hits[MAXT][MAXPC];
static unsigned pch(uint64_t pc) { return (unsigned)((pc * 0x9e3779b97f4a7c15ull) >> 40) & (MAXPC * 2 - 1); }
static int pcfind(uint64_t pc) { for (unsigned h = pch(pc);; h = (h + 1) & (MAXPC * 2 - 1)) { if (!pctab[h]) return -1; if (pctab[h] == pc) return pcidx[h]; } }
static void pcadd(uint64_t pc, int i) { unsigned h = pch(pc); while (pctab[h]) { if (pctab[h] == pc) return; h = (h + 1) & (MAXPC * 2 - 1); } pctab[h] = pc; pcidx[h] = i; }
static void learn(uint64_t pc) {
    if (!pc || pcfind(pc) >= 0) return;
    for (unsigned i = 0; i < out->nnew; i++) if (out->newpcs[i] == pc) return;
    if (out->nnew < MAXNEW) out->newpcs[out->nnew++] = pc; else out->overflow = 1;
}

// ---- switching -----------------------------------------------------------------------------
static int ask(int n, int paid) {
    if (out->npts >= MAXPTS) { out->overflow = 1; return 0; }
    uint32_t i = out->npts++;
    uint32_t c = i < out->nprefix ? out->prefix[i] : 0;
    if (c >= (uint32_t)n) { out->diverged = 1; finish(); }
    out->n[i] = n; out->choice[i] = c; out->paid[i] = paid;
    return c;
}
static void give(int t) { out->switches++; fpost(&T[t].baton); }
// hand over to t (not me) and wait until it is my turn again
static void pass(int t) { int m = me; give(t); fwait(&T[m].baton); }
static void tick(void) { if (++yields > 200000) { out->livelock = 1; finish(); } }

// I cannot go on (blocked, done or yielding): somebody else must.
static void leave(int waiting) {
    int en[MAXT], n = 0, m = me;
    for (int k = 1; k <= nthreads; k++) { int t = (m + k) % nthreads; if (t != m && T[t].state == READY) en[n++] = t; }
    if (n == 0) {
        // a timed wait may time out when nothing else can happen
        for (int t = 0; t < nthreads; t++) if (T[t].state == BLOCKED && T[t].timed) { T[t].state = READY; T[t].woken = 0; if (t == m) return; en[n++] = t; break; }
    }
    if (n == 0) {
        int all = 1;
        for (int t = 0; t < nthreads; t++) if (T[t].state != DONE) all = 0;
        if (all) { fpost(&main_word); return; }
        if (T[m].state == READY) return; // yielding with nobody else to run
        out->deadlock = 1; finish();
    }
    int t = en[n > 1 ? ask(n, 0) : 0];
    if (waiting) pass(t); else give(t);
}
static void yield_now(void) { tick(); leave(1); }

static void point(uint64_t pc, void *addr, int write) {
    struct Th *t = &T[me];
    // atomic accesses with no successful write by anyone: a spinning wait
    if (t->progress_seen != progress) { t->progress_seen = progress; t->same = 0; }
    if (++t->same > 300) { t->same = 0; yield_now(); }
    (void)addr; (void)write;
    int i = pcfind(pc);
    if (i < 0) return;
    if (hits[me][i] >= out->cap) return;
    hits[me][i]++;
    if (out->used >= out->budget) return;
    int en[MAXT], n = 0;
    en[n++] = me;
    for (int k = 1; k < nthreads; k++) { int u = (me + k) % nthreads; if (T[u].state == READY) en[n++] = u; }
    if (n == 1) return;
    int c = ask(n, 1);
    if (c) { out->used++; pass(en[c]); }
}

// ---- shadow memory: who touched what ---------------------------------------------------------
typedef struct { uint32_t pc, clk; uint8_t mask, tid, write, atomic; } Acc; // tid 0 = empty, else thread + 1
#define NACC 8
typedef struct { Acc a[NACC]; } Gran;
#define NPAGES (1 << 16)
static struct { uint64_t page; Gran *g; } pages[NPAGES];
static Gran *gran(uint64_t addr, int make) {
    uint64_t p = addr >> 12;
    unsigned h = (unsigned)((p * 0x9e3779b97f4a7c15ull) >> 48) & (NPAGES - 1);
    while (pages[h].page && pages[h].page != p) h = (h + 1) & (NPAGES - 1);
    if (!pages[h].page) {
        if (!make) return 0;
        Gran *g = mmap(0, 512 * sizeof(Gran), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (g == MAP_FAILED) return 0;
        pages[h].page = p; pages[h].g = g;
    }
    return &pages[h].g[(addr >> 3) & 511];
}
static void race(uint64_t a, uint64_t b, uint64_t addr) {
    for (unsigned i = 0; i < out->nraces && i < 8; i++) if (out->race[i][0] == a && out->race[i][1] == b) return;
    if (out->nraces < 8) { out->race[out->nraces][0] = a; out->race[out->nraces][1] = b; out->race[out->nraces][2] = addr; }
    out->nraces++;
}
static void touch1(uint64_t addr, unsigned mask, int write, int atomic, uint64_t pc) {
    Gran *g = gran(addr, 1);
    if (!g) return;
    struct Th *t = &T[me];
    int keep = -1, empty = -1, old = 0;
    for (int i = 0; i < NACC; i++) {
        Acc *o = &g->a[i];
        if (!o->tid) { if (empty < 0) empty = i; continue; }
        int u = o->tid - 1;
        if (o->clk < g->a[old].clk) old = i;
        if (u == me) {
            // replaced by an access that covers it and is at least as strong
            if (!(o->mask & ~mask) && o->write <= write && o->atomic >= (atomic != 0)) { if (keep < 0) keep = i; else o->tid = 0; }
            continue;
        }
        if ((o->mask & mask) && (write || o->write)) {
            if (atomic) learn(pc);
            if (o->atomic) learn(o->pc);
            if (o->clk > t->vc[u] && !(atomic && o->atomic)) race(o->pc, pc, addr);
        }
    }
    Acc *m = &g->a[keep >= 0 ? keep : empty >= 0 ? empty : old];
    m->pc = (uint32_t)pc; m->clk = t->vc[me]; m->mask = mask; m->tid = me + 1; m->write = write; m->atomic = atomic != 0;
}
static void touch(void *p, size_t n, int write, int atomic, void *ra) {
    if (me < 0 || !n) return;
    if (!atomic && (char *)p >= stack_lo && (char *)p < stack_hi) return;
    uint64_t pc = base_of(ra), a = (uint64_t)p, e = a + n;
    out->accesses++;
    if (atomic) point(pc, p, write);
    if (write && atomic != 2) progress++;
    while (a < e) {
        unsigned off = a & 7, k = 8 - off;
        if (k > e - a) k = e - a;
        touch1(a, ((1u << k) - 1) << off, write, atomic, pc);
        a += k;
    }
}
// memory is fresh after allocation: forget what happened there
void rt_fresh(void *p, size_t n) {
    if (me < 0) return;
    for (uint64_t a = (uint64_t)p & ~7ull; a < (uint64_t)p + n; a += 8) { Gran *g = gran(a, 0); if (g) memset(g, 0, sizeof *g); else a = (a | 4095) - 7; }
}

// ---- happens-before --------------------------------------------------------------------------
#define NSYNC 8192
static struct { uint64_t addr; uint32_t vc[MAXT]; } S[NSYNC];
static uint32_t *syncvar(void *p) {
    uint64_t a = (uint64_t)p;
    unsigned h = (unsigned)((a * 0x9e3779b97f4a7c15ull) >> 45) & (NSYNC - 1);
    for (int i = 0; i < 64 && S[h].addr && S[h].addr != a; i++) h = (h + 1) & (NSYNC - 1);
    if (S[h].addr != a) { S[h].addr = a; memset(S[h].vc, 0, sizeof S[h].vc); }
    return S[h].vc;
}
static void join(uint32_t *a, const uint32_t *b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static int acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static int rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void on_load(void *p, int mo) { if (me < 0) return; uint32_t *s = syncvar(p); join(T[me].acq, s); if (acq(mo)) join(T[me].vc, s); }
static void on_store(void *p, int mo, int rmw) {
    if (me < 0) return;
    uint32_t *s = syncvar(p);
    struct Th *t = &T[me];
    if (rel(mo)) { if (rmw) join(s, t->vc); else memcpy(s, t->vc, sizeof t->vc); t->vc[me]++; }
    else { if (!rmw) memset(s, 0, sizeof t->vc); join(s, t->rel); }
}
static void on_rmw(void *p, int mo) { on_load(p, mo); on_store(p, mo, 1); }

// ---- the hooks -------------------------------------------------------------------------------
#define RA __builtin_return_address(0)
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) {}
#define RW(n) \
    void __tsan_read##n(void *p) { touch(p, n, 0, 0, RA); } void __tsan_write##n(void *p) { touch(p, n, 1, 0, RA); } \
    void __tsan_unaligned_read##n(void *p) { touch(p, n, 0, 0, RA); } void __tsan_unaligned_write##n(void *p) { touch(p, n, 1, 0, RA); } \
    void __tsan_read_write##n(void *p) { touch(p, n, 1, 0, RA); } void __tsan_unaligned_read_write##n(void *p) { touch(p, n, 1, 0, RA); } \
    void __tsan_volatile_read##n(void *p) { touch(p, n, 0, 0, RA); } void __tsan_volatile_write##n(void *p) { touch(p, n, 1, 0, RA); } \
    void __tsan_unaligned_volatile_read##n(void *p) { touch(p, n, 0, 0, RA); } void __tsan_unaligned_volatile_write##n(void *p) { touch(p, n, 1, 0, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { touch(p, n, 0, 0, RA); }
void __tsan_write_range(void *p, size_t n) { touch(p, n, 1, 0, RA); }
void __tsan_vptr_update(void **p, void *v) { (void)v; touch(p, 8, 1, 0, RA); }
void __tsan_vptr_read(void **p) { touch(p, 8, 0, 0, RA); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { touch((void *)s, n, 0, 0, RA); touch(d, n, 1, 0, RA); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { touch((void *)s, n, 0, 0, RA); touch(d, n, 1, 0, RA); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { touch(d, n, 1, 0, RA); return memset(d, c, n); }
typedef unsigned __int128 u128;
#define ATOM(b, ty) \
    ty __tsan_atomic##b##_load(const volatile ty *p, int mo) { touch((void *)p, b / 8, 0, 1, RA); ty v = __atomic_load_n(p, __ATOMIC_SEQ_CST); on_load((void *)p, mo); return v; } \
    void __tsan_atomic##b##_store(volatile ty *p, ty v, int mo) { touch((void *)p, b / 8, 1, 1, RA); on_store((void *)p, mo, 0); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##b##_exchange(volatile ty *p, ty v, int mo) { touch((void *)p, b / 8, 1, 1, RA); on_rmw((void *)p, mo); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##b##_fetch_add(volatile ty *p, ty v, int mo) { touch((void *)p, b / 8, 1, 1, RA); on_rmw((void *)p, mo); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##b##_fetch_sub(volatile ty *p, ty v, int mo) { touch((void *)p, b / 8, 1, 1, RA); on_rmw((void *)p, mo); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##b##_fetch_and(volatile ty *p, ty v, int mo) { touch((void *)p, b / 8, 1, 1, RA); on_rmw((void *)p, mo); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##b##_fetch_or(volatile ty *p, ty v, int mo) { touch((void *)p, b / 8, 1, 1, RA); on_rmw((void *)p, mo); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##b##_fetch_xor(volatile ty *p, ty v, int mo) { touch((void *)p, b / 8, 1, 1, RA); on_rmw((void *)p, mo); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##b##_fetch_nand(volatile ty *p, ty v, int mo) { touch((void *)p, b / 8, 1, 1, RA); on_rmw((void *)p, mo); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##b##_compare_exchange_val(volatile ty *p, ty c, ty v, int mo, int fmo) { \
        touch((void *)p, b / 8, 1, 2, RA); ty x = c; \
        if (__atomic_compare_exchange_n(p, &x, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) { progress++; on_rmw((void *)p, mo); } else on_load((void *)p, fmo); return x; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile ty *p, ty *c, ty v, int mo, int fmo) { \
        touch((void *)p, b / 8, 1, 2, RA); \
        int ok = __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (ok) { progress++; on_rmw((void *)p, mo); } else on_load((void *)p, fmo); return ok; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile ty *p, ty *c, ty v, int mo, int fmo) { \
        touch((void *)p, b / 8, 1, 2, RA); \
        int ok = __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (ok) { progress++; on_rmw((void *)p, mo); } else on_load((void *)p, fmo); return ok; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { if (me >= 0) { if (acq(mo)) join(T[me].vc, T[me].acq); if (rel(mo)) { memcpy(T[me].rel, T[me].vc, sizeof T[me].vc); T[me].vc[me]++; } } __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

// ---- blocking --------------------------------------------------------------------------------
static long ret(long r) { if (r < 0 && r > -4096) { errno = -r; return -1; } return r; }
long syscall(long n, long a, long b, long c, long d, long e, long f) {
    if (n == SYS_futex && me >= 0) {
        int op = b & 127;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (__atomic_load_n((uint32_t *)a, __ATOMIC_SEQ_CST) != (uint32_t)c) return ret(-EAGAIN);
            struct Th *t = &T[me];
            t->state = BLOCKED; t->futex = (uint32_t *)a; t->timed = d != 0; t->woken = 1;
            out->blocked++;
            leave(1);
            t->futex = 0;
            return t->woken ? 0 : ret(-ETIMEDOUT);
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            int k = 0;
            for (int t = 0; t < nthreads && k < (int)c; t++) if (T[t].state == BLOCKED && T[t].futex == (uint32_t *)a) { T[t].state = READY; T[t].woken = 1; k++; progress++; }
            return k;
        }
    }
    return ret(sys(n, a, b, c, d, e, f));
}
int sched_yield(void) { if (me >= 0) { yield_now(); return 0; } return ret(sys(SYS_sched_yield, 0, 0, 0, 0, 0, 0)); }
int nanosleep(const struct timespec *a, struct timespec *b) { if (me >= 0) { yield_now(); return 0; } return ret(sys(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0)); }
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) { if (me >= 0) { yield_now(); return 0; } return -sys(SYS_clock_nanosleep, c, fl, (long)a, (long)b, 0, 0); }

// OS randomness: a stream without repetition, the same in every schedule
long getrandom(void *p, size_t n, unsigned fl) {
    static uint64_t k; (void)fl;
    for (size_t i = 0; i < n; i++) {
        uint64_t z = __atomic_add_fetch(&k, 1, __ATOMIC_SEQ_CST) * 0x9e3779b97f4a7c15ull;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        ((unsigned char *)p)[i] = (unsigned char)(z >> 56);
    }
    return (long)n;
}
// ---- the controlled region -------------------------------------------------------------------
void rt_setup(Out *o, int n) {
    out = o; nthreads = n;
    for (uint32_t i = 0; i < o->npcs && i < MAXPC; i++) pcadd(o->pcs[i], i);
    for (int t = 0; t < n; t++) T[t].vc[t] = 1;
}
void rt_enter(int t) {
    pthread_attr_t at; void *lo; size_t sz;
    if (pthread_getattr_np(pthread_self(), &at) == 0) { pthread_attr_getstack(&at, &lo, &sz); stack_lo = lo; stack_hi = (char *)lo + sz; pthread_attr_destroy(&at); }
    T[t].state = READY;
    __atomic_add_fetch(&started, 1, __ATOMIC_SEQ_CST);
    fwait(&T[t].baton);
    me = t;
}
void rt_leave(void) { int m = me; T[m].state = DONE; progress++; leave(0); me = -1; }
void rt_go(void) {
    while ((int)__atomic_load_n(&started, __ATOMIC_SEQ_CST) < nthreads) sys(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    int t = nthreads > 1 ? ask(nthreads, 0) : 0;
    give(t);
    fwait(&main_word);
}
size_t rt_size(void) { return sizeof(Out); }
uint64_t rt_image(void *p) { return base_of(p); }
