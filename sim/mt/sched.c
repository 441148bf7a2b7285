/* Simulated threads: real threads of which exactly one runs at any time, decided by a seeded plan.
 *
 * The library and the harness are compiled with SanitizerCoverage, so that every edge, function entry,
 * load and store calls back here; each call is a point where the plan may switch to another thread.
 * futex waits (everything std blocks on) become simulated blocking, so deadlocks are seen as such. */
#define _GNU_SOURCE
#include <errno.h>
#include <linux/futex.h>
#include <stdarg.h>
#include <stdint.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define MAXT 8
enum { READY, BLOCKED, TIMED, DONE };
enum { ANY = 0, HOT = 1 };
struct sw { uint32_t delta, pick; };
struct list { const struct sw *p; uint64_t n, at, left; };
struct trace { uint64_t at; uint32_t from, to, why, pc; };
#define NTRACE 256
struct stats {
    uint64_t events, hot, switches, waits, yields, hash;
    uint32_t status, ntrace; /* status 1 all done, 2 deadlock, 3 too long */
    struct trace trace[NTRACE];
};

extern char __data_start[], _end[], __executable_start[];

static struct list lists[2]; /* preemptions anywhere, and at shared memory */
static __thread int muted;
static uint64_t cap, since_switch;
static int nthreads;
static volatile int active;
static int state[MAXT];
static const uint32_t *blocked_on[MAXT];
static uint32_t bitset[MAXT];
static int woken[MAXT];
static uint32_t baton[MAXT], finished;
static struct stats st;
static uint64_t rnd_state;
static __thread int me = -1;

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static uint64_t splitmix(uint64_t x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
static void wait_for(uint32_t *w) {
    while (!__atomic_load_n(w, __ATOMIC_SEQ_CST)) raw(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
}
static void signal_(uint32_t *w) {
    __atomic_store_n(w, 1, __ATOMIC_SEQ_CST);
    raw(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, 64, 0, 0, 0);
}
static void end(uint32_t status) {
    st.status = status;
    active = 0;
    signal_(&finished);
}
static void stop_forever(void) {
    static uint32_t never;
    for (;;) raw(SYS_futex, (long)&never, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
}
static void arm(struct list *l) {
    l->left = l->at < l->n ? l->p[l->at].delta + 1 : 0;
}
static int choose(uint32_t pick, int skip) {
    int c[MAXT], n = 0;
    for (int i = 0; i < nthreads; i++) if (i != skip && state[i] == READY) c[n++] = i;
    return n ? c[pick % n] : -1;
}
static void go(int to, int why, void *pc) {
    int from = me;
    st.switches++;
    st.hash = splitmix(st.hash ^ (uint64_t)from << 32 ^ (uint64_t)to << 40 ^ st.events);
    if (st.ntrace < NTRACE) {
        struct trace *t = &st.trace[st.ntrace++];
        t->at = st.events;
        t->from = from;
        t->to = to;
        t->why = why;
        t->pc = (uint32_t)((char *)pc - __executable_start);
    }
    since_switch = 0;
    signal_(&baton[to]);
    wait_for(&baton[from]);
    baton[from] = 0;
}
static uint32_t next_pick(void) {
    return (uint32_t)splitmix(st.switches * 31 + st.waits);
}
static void preempt(uint32_t pick, void *pc) {
    int to = choose(pick, me);
    if (to >= 0) go(to, 0, pc);
}
static inline int tick(struct list *l, void *pc) {
    if (l->left && --l->left == 0) {
        uint32_t pick = l->p[l->at].pick;
        l->at++;
        arm(l);
        preempt(pick, pc);
        return 1;
    }
    return 0;
}
static inline void point(int hot, void *pc) {
    if (me < 0 || !active || muted) return;
    st.events++;
    st.hot += hot;
    if (st.events > cap) { end(3); stop_forever(); }
    if (++since_switch > 400000) { /* a spinning thread must not starve the others */
        preempt(next_pick(), pc);
        since_switch = 0;
        return;
    }
    if (hot && tick(&lists[HOT], pc)) return;
    tick(&lists[ANY], pc);
}
/* Writable static memory that is written to while the threads run. */
#define NWORDS (1 << 22)
static unsigned char written[NWORDS / 8];
static inline int is_hot(const void *p, int store) {
    if ((const char *)p < __data_start || (const char *)p >= _end || me < 0 || muted || !active) return 0;
    uint64_t w = ((const char *)p - __data_start) / 8 % NWORDS;
    if (store) written[w / 8] |= 1 << w % 8;
    return written[w / 8] >> w % 8 & 1;
}

void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { for (; a < b; a++) *a = 1; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void)g; point(0, __builtin_return_address(0)); }
#define MEM(n) \
    void __sanitizer_cov_load##n(void *p) { point(is_hot(p, 0), __builtin_return_address(0)); } \
    void __sanitizer_cov_store##n(void *p) { point(is_hot(p, 1), __builtin_return_address(0)); }
MEM(1) MEM(2) MEM(4) MEM(8) MEM(16)

/* Atomic operations, which the compiler hands over one by one (always sequentially consistent here). */
#define ATOMIC(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *a, int mo) { (void)mo; point(1, __builtin_return_address(0)); return __atomic_load_n(a, 5); } \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { (void)mo; point(1, __builtin_return_address(0)); __atomic_store_n(a, v, 5); } \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { (void)mo; point(1, __builtin_return_address(0)); return __atomic_exchange_n(a, v, 5); } \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { (void)mo; point(1, __builtin_return_address(0)); return __atomic_fetch_add(a, v, 5); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { (void)mo; point(1, __builtin_return_address(0)); return __atomic_fetch_sub(a, v, 5); } \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { (void)mo; point(1, __builtin_return_address(0)); return __atomic_fetch_and(a, v, 5); } \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { (void)mo; point(1, __builtin_return_address(0)); return __atomic_fetch_or(a, v, 5); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { (void)mo; point(1, __builtin_return_address(0)); return __atomic_fetch_xor(a, v, 5); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { (void)mo; point(1, __builtin_return_address(0)); return __atomic_fetch_nand(a, v, 5); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { \
        (void)mo; (void)fmo; point(1, __builtin_return_address(0)); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { \
        (void)mo; (void)fmo; point(1, __builtin_return_address(0)); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { \
        (void)mo; (void)fmo; point(1, __builtin_return_address(0)); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) {}

/* ------------------------------------------------------------ blocking */

static long sim_wait(const uint32_t *addr, uint32_t val, int timed, uint32_t bits) {
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
    st.waits++;
    state[me] = timed ? TIMED : BLOCKED;
    blocked_on[me] = addr;
    bitset[me] = bits;
    woken[me] = 0;
    int to = choose(next_pick(), me);
    if (to < 0) {
        /* only timeouts can help */
        for (int i = 0; i < nthreads; i++)
            if (state[i] == TIMED) { state[i] = READY; to = i; break; }
        if (to < 0) { end(2); stop_forever(); }
        if (to == me) return -ETIMEDOUT;
    }
    go(to, 1, (void *)__executable_start);
    return woken[me] ? 0 : -ETIMEDOUT;
}
static long sim_wake(const uint32_t *addr, uint32_t n, uint32_t bits) {
    long k = 0;
    for (int i = 0; i < nthreads && (uint32_t)k < n; i++) {
        if ((state[i] == BLOCKED || state[i] == TIMED) && blocked_on[i] == addr && (bitset[i] & bits)) {
            state[i] = READY;
            woken[i] = 1;
            k++;
        }
    }
    return k;
}
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    long r;
    if (me >= 0 && active && n == SYS_futex) {
        int op = (int)b & FUTEX_CMD_MASK;
        point(1, __builtin_return_address(0));
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) r = sim_wait((uint32_t *)a, (uint32_t)c, d != 0, op == FUTEX_WAIT ? ~0u : (uint32_t)f);
        else if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) r = sim_wake((uint32_t *)a, (uint32_t)c, op == FUTEX_WAKE ? ~0u : (uint32_t)f);
        else r = raw(n, a, b, c, d, e, f);
    } else if (n == SYS_getrandom && nthreads) {
        for (long i = 0; i < b; i++) ((unsigned char *)a)[i] = rnd_state = splitmix(rnd_state);
        r = b;
    } else {
        r = raw(n, a, b, c, d, e, f);
    }
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}
ssize_t getrandom(void *b, size_t n, unsigned fl) { return syscall(SYS_getrandom, (long)b, (long)n, (long)fl, 0, 0, 0); }

void mt_yield(void) {
    if (me < 0 || !active) return;
    st.yields++;
    /* the next one in turn */
    for (int k = 1; k < nthreads; k++) {
        int i = (me + k) % nthreads;
        if (state[i] == READY) { go(i, 2, __builtin_return_address(0)); return; }
    }
}
int sched_yield(void) { if (me >= 0) mt_yield(); else raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0); return 0; }
int nanosleep(const struct timespec *t, struct timespec *r) {
    if (me >= 0) { mt_yield(); return 0; }
    long x = raw(SYS_nanosleep, (long)t, (long)r, 0, 0, 0, 0);
    if (x < 0) { errno = -x; return -1; }
    return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *r) {
    if (me >= 0) { mt_yield(); return 0; }
    return (int)-raw(SYS_clock_nanosleep, c, fl, (long)t, (long)r, 0, 0);
}

/* ------------------------------------------------------------ control */

/* The harness's own bookkeeping is not preempted. */
void mt_mute(int on) { muted = on; }
void mt_begin(int n, const struct sw *any, uint64_t nany, const struct sw *hot, uint64_t nhot, uint64_t max_events, uint64_t seed) {
    memset(&st, 0, sizeof st);
    nthreads = n;
    lists[ANY] = (struct list){ any, nany, 0, 0 };
    lists[HOT] = (struct list){ hot, nhot, 0, 0 };
    cap = max_events;
    rnd_state = seed;
    finished = 0;
    since_switch = 0;
    for (int i = 0; i < n; i++) { state[i] = READY; baton[i] = 0; }
    arm(&lists[ANY]);
    arm(&lists[HOT]);
}
void mt_enter(int i) {
    wait_for(&baton[i]);
    baton[i] = 0;
    me = i;
}
/* the thread takes no further part; it waits until the others have ended too */
void mt_leave(void) {
    int i = me;
    state[i] = DONE;
    int to = choose(next_pick(), i), waiting = 0;
    if (to < 0) {
        for (int k = 0; k < nthreads; k++) {
            if (state[k] == TIMED) { state[k] = READY; to = k; break; }
            if (state[k] == BLOCKED) waiting = 1;
        }
    }
    if (to >= 0) {
        st.switches++;
        st.hash = splitmix(st.hash ^ (uint64_t)to << 40 ^ st.events ^ 77);
        since_switch = 0;
        me = -1;
        signal_(&baton[to]);
    } else {
        me = -1;
        end(waiting ? 2 : 1);
    }
    wait_for(&finished);
}
const struct stats *mt_run(int first) {
    active = 1;
    signal_(&baton[first]);
    wait_for(&finished);
    return &st;
}
