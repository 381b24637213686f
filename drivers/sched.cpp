// See sched.hpp. This file is compiled without instrumentation.
#include "sched.hpp"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <initializer_list>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define NOINST __attribute__((no_sanitize("thread")))

namespace {
constexpr int MAXT = 24;
constexpr int MAXOBJ = 4096;

enum state { UNUSED, READY, B_MUTEX, B_COND, B_JOIN, B_IDLE, B_RW, DONE };

struct vc { uint32_t c[MAXT]; };
void vc_join(vc &a, const vc &b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

struct thr {
    int st;
    std::atomic<int> go;
    void *wait_on;      // mutex / cond
    void *wait_mutex;   // mutex to take again after a cond wait
    int wait_tid;
    bool rw_write;
    bool timed;
    bool timed_out;
    vc clock;
    unsigned long fake;
    pthread_t real;
    void *(*fn)(void *);
    void *arg;
    void *ret;
    int prio;
};

struct obj {       // mutex, rwlock, cond or atomic location
    void *addr;
    int owner;     // mutex / write owner, -1 none
    int readers;
    uint32_t rmask;
    vc clock, rclock;   // rclock: released by readers of a rwlock
    bool dead;
};

thr T[MAXT];
int nthreads;
std::atomic<bool> active{false};
thread_local int me = -1;
thread_local int in_rt = 0;
obj objs[MAXOBJ];
int nobjs;
int objhash[MAXOBJ * 4];
sched::plan P;
uint64_t rs;
long nsteps;
long lowprio_next;
constexpr int MAXPCT = 16;
long pct_at[MAXPCT]; int npct; long pct_len = 200;
FILE *lf;
long fair_from = 100000, limit_at = 300000;

// DFS
struct choice { short n, taken, cur; short options[MAXT]; short cost; };
choice *ch; long nch, chcap; long replay_len; int dfs_bound; int dfs_used;

uint64_t rnd() {
    uint64_t z = (rs += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
void futex_wait(std::atomic<int> *a, int v) { syscall(SYS_futex, (int *)a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
void futex_wake(std::atomic<int> *a) { syscall(SYS_futex, (int *)a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

[[noreturn]] void fatal_event(const char *what, const void *addr = nullptr) {
    if (lf) { fprintf(lf, "{\"e\":\"%s\",\"t\":%d,\"step\":%ld}\n", what, me, nsteps); fflush(lf); }
    fprintf(stderr, "sched: %s in thread %d at step %ld\n", what, me, nsteps);
    for (int i = 0; i < nthreads; ++i) fprintf(stderr, "  thread %d state %d\n", i, T[i].st);
    fflush(stderr);
    _exit(0);
}

obj &get(void *a) {
    unsigned h = (unsigned)(((uintptr_t)a >> 3) * 2654435761u) % (MAXOBJ * 4);
    while (objhash[h]) {
        obj &o = objs[objhash[h] - 1];
        if (o.addr == a) { return o; }
        h = (h + 1) % (MAXOBJ * 4);
    }
    if (nobjs == MAXOBJ) fatal_event("too-many-objects");
    obj &o = objs[nobjs];
    memset(&o, 0, sizeof o);
    o.addr = a; o.owner = -1;
    objhash[h] = ++nobjs;
    return o;
}

// ---- shadow memory for race detection: last writer and readers of each 8-byte granule
struct shadow { uintptr_t a; uint32_t wclk; int16_t w; uint8_t wmask; uint8_t dead; uint32_t rclk[MAXT]; uint8_t rmask[MAXT]; };
constexpr int SH = 1 << 15;
shadow *sh; int *shused; int nshused;
shadow *sget(uintptr_t g, bool create) {
    unsigned h = (unsigned)((g >> 3) * 2654435761u) & (SH - 1);
    while (sh[h].a) { if (sh[h].a == g) return &sh[h]; h = (h + 1) & (SH - 1); }
    if (!create) return nullptr;
    if (nshused > SH * 3 / 4) fatal_event("too-many-locations");
    sh[h].a = g; sh[h].w = -1; shused[nshused++] = h;
    return &sh[h];
}
void shadow_reset() {
    for (int i = 0; i < nshused; ++i) memset(&sh[shused[i]], 0, sizeof(shadow));
    nshused = 0;
}
void forget(uintptr_t a, size_t n, bool dead) {
    uintptr_t g = a & ~7ull, e = a + n;
    for (; g < e; g += 8) {
        shadow *s = sget(g, dead);
        if (s) { s->w = -1; s->wmask = 0; memset(s->rclk, 0, sizeof s->rclk); memset(s->rmask, 0, sizeof s->rmask); s->dead = dead; }
    }
}
void check_dead(const void *p) {
    shadow *s = sget((uintptr_t)p & ~7ull, false);
    if (s && s->dead) fatal_event("use-after-free", p);
}
void access(uintptr_t a, size_t n, bool write) {
    if (!active || in_rt || me < 0) return;
    ++in_rt;
    thr &t = T[me];
    uintptr_t e = a + n;
    while (a < e) {
        uintptr_t g = a & ~7ull;
        unsigned off = a - g, len = (g + 8 < e ? g + 8 : e) - a;
        uint8_t mask = (uint8_t)(((1u << len) - 1) << off);
        shadow *s = sget(g, true);
        if (s->dead) fatal_event("use-after-free");
        if (s->w >= 0 && s->w != me && (s->wmask & mask) && s->wclk > t.clock.c[s->w]) fatal_event("race");
        if (write) {
            for (int i = 0; i < nthreads; ++i) if (i != me && (s->rmask[i] & mask) && s->rclk[i] > t.clock.c[i]) fatal_event("race");
            if (s->w != me || s->wclk != t.clock.c[me]) s->wmask = 0;
            s->w = me; s->wclk = t.clock.c[me]; s->wmask |= mask;
        } else {
            if (s->rclk[me] != t.clock.c[me]) s->rmask[me] = 0;
            s->rclk[me] = t.clock.c[me]; s->rmask[me] |= mask;
        }
        a += len;
    }
    --in_rt;
}

// ---- scheduling
bool rw_free(obj &o, bool write, int tid) { return write ? (o.owner < 0 && o.readers == 0) : o.owner < 0; }
bool enabled(int i) {
    thr &t = T[i];
    switch (t.st) {
    case READY: return true;
    case B_MUTEX: return get(t.wait_on).owner < 0;
    case B_RW: return rw_free(get(t.wait_on), t.rw_write, i);
    case B_JOIN: return T[t.wait_tid].st == DONE;
    default: return false;
    }
}
int pick(bool must_switch) {
    int en[MAXT], n = 0; bool self_ok = false;
    for (int i = 0; i < nthreads; ++i) if (enabled(i)) { if (i == me) self_ok = true; en[n++] = i; }
    if (n == 0) {
        for (int i = 0; i < nthreads; ++i) if (T[i].st == B_COND && T[i].timed) { T[i].timed_out = true; T[i].st = B_MUTEX; T[i].wait_on = T[i].wait_mutex; return pick(must_switch); }
        for (int i = 0; i < nthreads; ++i) if (T[i].st == B_IDLE) return i;
        return -1;
    }
    if (nsteps > fair_from) {       // unfair schedules that do not end continue fairly
        if (nsteps > limit_at) fatal_event("livelock");
        for (int k = 1; k <= nthreads; ++k) { int i = (me + k) % nthreads; if (enabled(i)) return i; }
    }
    if (P.mode == sched::DFS) {
        // options: current thread first, then the others in order; switching away from an enabled thread costs one
        short opt[MAXT]; int k = 0;
        if (self_ok) opt[k++] = me;
        for (int i = 0; i < n; ++i) if (en[i] != me) opt[k++] = en[i];
        if (self_ok && dfs_used >= dfs_bound) k = 1;
        if (k == 1) return opt[0];
        if (nch == chcap) { chcap = chcap ? chcap * 2 : 4096; ch = (choice *)realloc(ch, chcap * sizeof(choice)); }
        choice &c = ch[nch];
        if (nch >= replay_len) { c.taken = 0; }
        c.n = k; c.cur = self_ok;
        if (c.taken >= k) c.taken = k - 1;
        memcpy(c.options, opt, sizeof(short) * k);
        ++nch;
        if (self_ok && c.taken > 0) ++dfs_used;
        return opt[c.taken];
    }
    if (P.mode == sched::PCT) {
        for (int i = 0; i < npct; ++i) if (pct_at[i] == nsteps && me >= 0) T[me].prio = (int)--lowprio_next;
        int best = en[0];
        for (int i = 1; i < n; ++i) if (T[en[i]].prio > T[best].prio) best = en[i];
        return best;
    }
    if (self_ok && !must_switch && (int)(rnd() % 100) >= P.param) return me;
    return en[rnd() % n];
}
void sleep_until_go() {
    while (T[me].go.load(std::memory_order_acquire) == 0) futex_wait(&T[me].go, 0);
    T[me].go.store(0, std::memory_order_relaxed);
}
void switch_to(int next) {
    if (next == me) return;
    T[next].go.store(1, std::memory_order_release);
    futex_wake(&T[next].go);
}
void maybe_spurious() {
    if (!P.spurious || P.mode == sched::DFS) return;
    if (rnd() % 40) return;
    int c[MAXT], n = 0;
    for (int i = 0; i < nthreads; ++i) if (T[i].st == B_COND) c[n++] = i;
    if (n) { thr &t = T[c[rnd() % n]]; t.st = B_MUTEX; t.wait_on = t.wait_mutex; }
}
// Give the scheduler the choice who goes on. The state of the caller says whether (and when) it can.
void reschedule(bool blocked) {
    ++nsteps;
    maybe_spurious();
    int n = pick(blocked);
    if (n < 0) fatal_event("deadlock");
    if (n != me) { switch_to(n); sleep_until_go(); }
    T[me].st = READY;
}
void yield_point() { if (!active || me < 0 || in_rt) return; ++in_rt; reschedule(false); --in_rt; }

void lock_mutex(void *m) {
    check_dead(m);
    obj &o = get(m);
    if (o.owner == me) { T[me].st = B_COND; T[me].timed = false; reschedule(true); }  // never comes back: reported as deadlock
    while (o.owner >= 0) { T[me].st = B_MUTEX; T[me].wait_on = m; reschedule(true); }
    o.owner = me;
    vc_join(T[me].clock, o.clock);
}
void unlock_mutex(void *m) {
    check_dead(m);
    obj &o = get(m);
    if (o.owner != me) fatal_event("bad-unlock");
    o.owner = -1;
    o.clock = T[me].clock;
    ++T[me].clock.c[me];
}

struct start_arg { int id; };
void *thread_main(void *p) {
    me = (int)(intptr_t)p;
    in_rt = 1;
    sleep_until_go();
    T[me].st = READY;
    in_rt = 0;
    void *r = T[me].fn(T[me].arg);
    in_rt = 1;
    T[me].ret = r;
    T[me].st = DONE;
    ++nsteps;
    int n = pick(true);
    if (n < 0) fatal_event("deadlock");
    switch_to(n);
    return r;
}

typedef int (*create_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
typedef int (*join_t)(pthread_t, void **);
create_t real_create; join_t real_join;
void init_real() {
    if (real_create) return;
    real_create = (create_t)dlsym(RTLD_NEXT, "pthread_create");
    real_join = (join_t)dlsym(RTLD_NEXT, "pthread_join");
}
int find_fake(unsigned long f) { for (int i = 0; i < nthreads; ++i) if (T[i].fake == f) return i; return -1; }

// Quarantine: memory freed during an execution is released after it.
void **quar; long nquar, quarcap;

void begin(const sched::plan &p) {
    init_real();
    if (!sh) {
        sh = (shadow *)calloc(SH, sizeof(shadow)); shused = (int *)malloc(SH * sizeof(int));
        cpu_set_t set; CPU_ZERO(&set); int c = sched_getcpu(); CPU_SET(c < 0 ? 0 : c, &set); sched_setaffinity(0, sizeof set, &set);
    }
    P = p; rs = p.seed * 1000003ull + 17;
    for (int i = 0; i < MAXT; ++i) { T[i].st = UNUSED; T[i].go = 0; memset(&T[i].clock, 0, sizeof(vc)); T[i].fake = 0; }
    nthreads = 1; me = 0; T[0].st = READY; T[0].clock.c[0] = 1; T[0].prio = 1000 + (int)(rnd() % 1000); T[0].fake = 0; T[0].real = 0;
    nobjs = 0; memset(objhash, 0, sizeof objhash);
    shadow_reset();
    nsteps = 0; lowprio_next = 0; nch = 0; dfs_used = 0;
    npct = 0;
    if (p.mode == sched::PCT) for (int i = 0; i < p.param && i < MAXPCT; ++i) pct_at[npct++] = 1 + (long)(rnd() % (uint64_t)(pct_len > 4 ? pct_len : 4));
    active = true;
}
void finish() {
    in_rt = 1;
    active = false;
    for (int i = 1; i < nthreads; ++i) {
        if (T[i].st != DONE && T[i].st != UNUSED) { active = true; fatal_event("thread-left"); }
        if (T[i].real) { real_join(T[i].real, nullptr); T[i].real = 0; }
    }
    pct_len = nsteps > 10 ? nsteps : 10;
    for (long i = 0; i < nquar; ++i) free(quar[i]);
    nquar = 0;
    in_rt = 0; me = -1;
}
}

namespace sched {
static void on_signal(int sig) { if (lf) fflush(lf); signal(sig, SIG_DFL); raise(sig); }
void open_log(const char *path) {
    for (int sg : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL}) signal(sg, on_signal);
     lf = fopen(path, "w"); if (!lf) { fprintf(stderr, "cannot open %s\n", path); exit(3); } setvbuf(lf, nullptr, _IOFBF, 1 << 16); }
void log(const char *fmt, ...) {
    ++in_rt;
    va_list ap; va_start(ap, fmt); vfprintf(lf, fmt, ap); va_end(ap); fputc('\n', lf);
    --in_rt;
}
void close_log() { if (lf) fclose(lf); lf = nullptr; }
void execute(const plan &p, void (*body)(void *), void *arg) { fflush(lf); begin(p); body(arg); finish(); }
long enumerate(int preemptions, long limit, void (*body)(void *), void *arg, bool *complete, long (*)(void *)) {
    long n = 0;
    replay_len = 0; dfs_bound = preemptions;
    *complete = false;
    for (;;) {
        plan p; p.mode = DFS;
        execute(p, body, arg);
        ++n;
        while (nch > 0 && ch[nch - 1].taken + 1 >= ch[nch - 1].n) --nch;
        if (nch == 0) { *complete = true; break; }
        ++ch[nch - 1].taken;
        replay_len = nch;
        if (n >= limit) break;
    }
    return n;
}
void wait_idle() { ++in_rt; T[me].st = B_IDLE; reschedule(true); --in_rt; }
void point() { yield_point(); }
int self() { return me; }
long steps() { return nsteps; }
}

// ------------------------------------------------------------------ interposed functions
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) { if (!active || me < 0 || in_rt) return 0; ++in_rt; reschedule(false); lock_mutex(m); --in_rt; return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!active || me < 0 || in_rt) return 0;
    ++in_rt; reschedule(false); check_dead(m); obj &o = get(m); int r = EBUSY; if (o.owner < 0) { lock_mutex(m); r = 0; } --in_rt; return r;
}
int pthread_mutex_unlock(pthread_mutex_t *m) { if (!active || me < 0 || in_rt) return 0; ++in_rt; unlock_mutex(m); reschedule(false); --in_rt; return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { return 0; }
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
    if (!active || me < 0 || in_rt) return 0;
    ++in_rt;
    check_dead(c);
    reschedule(false);
    unlock_mutex(m);
    T[me].st = B_COND; T[me].wait_on = c; T[me].wait_mutex = m; T[me].timed = timed; T[me].timed_out = false;
    reschedule(true);
    lock_mutex(m);
    bool to = T[me].timed_out;
    --in_rt;
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) { return cond_wait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *) { return cond_wait(c, m, true); }
static void wake(int i) { T[i].st = B_MUTEX; T[i].wait_on = T[i].wait_mutex; }
int pthread_cond_signal(pthread_cond_t *c) {
    if (!active || me < 0 || in_rt) return 0;
    ++in_rt; reschedule(false); check_dead(c);
    int w[MAXT], n = 0;
    for (int i = 0; i < nthreads; ++i) if (T[i].st == B_COND && T[i].wait_on == c) w[n++] = i;
    if (n) wake(w[P.mode == sched::DFS ? 0 : rnd() % n]);
    --in_rt; return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    if (!active || me < 0 || in_rt) return 0;
    ++in_rt; reschedule(false); check_dead(c);
    for (int i = 0; i < nthreads; ++i) if (T[i].st == B_COND && T[i].wait_on == c) wake(i);
    --in_rt; return 0;
}
int pthread_cond_destroy(pthread_cond_t *) { return 0; }

int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
    if (!active || me < 0 || in_rt) return 0;
    ++in_rt; reschedule(false); check_dead(l);
    obj &o = get(l);
    if (o.owner == me || (o.rmask >> me & 1)) { T[me].st = B_COND; T[me].timed = false; reschedule(true); }
    while (!rw_free(o, true, me)) { T[me].st = B_RW; T[me].rw_write = true; T[me].wait_on = l; reschedule(true); }
    o.owner = me; vc_join(T[me].clock, o.clock); vc_join(T[me].clock, o.rclock);
    --in_rt; return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
    if (!active || me < 0 || in_rt) return 0;
    ++in_rt; reschedule(false); check_dead(l);
    obj &o = get(l);
    if (o.owner == me) { --in_rt; return EDEADLK; }
    while (!rw_free(o, false, me)) { T[me].st = B_RW; T[me].rw_write = false; T[me].wait_on = l; reschedule(true); }
    ++o.readers; o.rmask |= 1u << me; vc_join(T[me].clock, o.clock);
    --in_rt; return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
    if (!active || me < 0 || in_rt) return 0;
    ++in_rt; check_dead(l);
    obj &o = get(l);
    // readers do not synchronise with each other, only with writers
    if (o.owner == me) { o.owner = -1; vc_join(o.clock, T[me].clock); }
    else if (o.rmask >> me & 1) { --o.readers; o.rmask &= ~(1u << me); vc_join(o.rclock, T[me].clock); }
    else fatal_event("bad-unlock");
    ++T[me].clock.c[me];
    reschedule(false);
    --in_rt; return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }

int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    init_real();
    if (!active || me < 0) return real_create(t, a, fn, arg);
    ++in_rt;
    if (nthreads == MAXT) fatal_event("too-many-threads");
    int id = nthreads;
    thr &n = T[id];
    n.st = READY; n.go = 0; n.fn = fn; n.arg = arg; n.ret = nullptr;
    memset(&n.clock, 0, sizeof(vc)); vc_join(n.clock, T[me].clock); n.clock.c[id] = 1; ++T[me].clock.c[me];
    // thread ids are ordered arbitrarily in real executions
    n.fake = P.mode == sched::DFS ? 4096 + id : 4096 + ((rnd() & 0xffff) << 8) + id;
    n.prio = 1000 + (int)(rnd() % 1000);
    ++nthreads;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 256 * 1024);
    int r = real_create(&n.real, &at, thread_main, (void *)(intptr_t)id);
    pthread_attr_destroy(&at);
    if (r) fatal_event("cannot-create-thread");
    *t = n.fake;
    reschedule(false);
    --in_rt; return 0;
}
int pthread_join(pthread_t t, void **ret) {
    init_real();
    if (!active || me < 0) return real_join(t, ret);
    ++in_rt;
    int id = find_fake(t);
    if (id < 0 || id == me) fatal_event("bad-join");
    while (T[id].st != DONE) { T[me].st = B_JOIN; T[me].wait_tid = id; reschedule(true); }
    vc_join(T[me].clock, T[id].clock);
    if (ret) *ret = T[id].ret;
    --in_rt; return 0;
}
int pthread_detach(pthread_t) { return 0; }
pthread_t pthread_self(void) {
    if (active && me >= 0 && T[me].fake) return T[me].fake;
    static pthread_t (*real)(void); if (!real) real = (pthread_t(*)(void))dlsym(RTLD_NEXT, "pthread_self");
    return real();
}
int sched_yield(void) {
    if (!active || me < 0 || in_rt) return 0;
    ++in_rt; T[me].prio = (int)--lowprio_next; reschedule(true); --in_rt; return 0;
}
int nanosleep(const struct timespec *, struct timespec *) { return sched_yield(); }
int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { return sched_yield(); }
int usleep(useconds_t) { return sched_yield(); }

// ------------------------------------------------------------------ instrumentation callbacks
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *v) { if (*p != v) access((uintptr_t)p, 8, true); }
void __tsan_vptr_read(void **p) { access((uintptr_t)p, 8, false); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
    void __tsan_read##n(void *p) { access((uintptr_t)p, n, false); } \
    void __tsan_write##n(void *p) { access((uintptr_t)p, n, true); } \
    void __tsan_unaligned_read##n(void *p) { access((uintptr_t)p, n, false); } \
    void __tsan_unaligned_write##n(void *p) { access((uintptr_t)p, n, true); } \
    void __tsan_volatile_read##n(void *p) { access((uintptr_t)p, n, false); } \
    void __tsan_volatile_write##n(void *p) { access((uintptr_t)p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access((uintptr_t)p, n, false); }
void __tsan_write_range(void *p, size_t n) { access((uintptr_t)p, n, true); }

static void acq(void *a, int mo) {
    if (mo == __ATOMIC_RELAXED || mo == __ATOMIC_RELEASE) return;
    vc_join(T[me].clock, get(a).clock);
}
static void rel(void *a, int mo, bool rmw) {
    obj &o = get(a);
    if (mo == __ATOMIC_RELAXED || mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME) { if (!rmw) memset(&o.clock, 0, sizeof(vc)); return; }
    if (rmw) vc_join(o.clock, T[me].clock); else o.clock = T[me].clock;
    ++T[me].clock.c[me];
}
#define PRE if (active && me >= 0 && !in_rt) { ++in_rt; check_dead((void *)a); reschedule(false);
#define POST --in_rt; }
#define ATOMIC(n, type) \
    type __tsan_atomic##n##_load(const volatile type *a, int mo) { PRE acq((void *)a, mo); POST return *a; } \
    void __tsan_atomic##n##_store(volatile type *a, type v, int mo) { PRE rel((void *)a, mo, false); POST *a = v; } \
    type __tsan_atomic##n##_exchange(volatile type *a, type v, int mo) { PRE acq((void *)a, mo); rel((void *)a, mo, true); POST type o = *a; *a = v; return o; } \
    type __tsan_atomic##n##_fetch_add(volatile type *a, type v, int mo) { PRE acq((void *)a, mo); rel((void *)a, mo, true); POST type o = *a; *a = o + v; return o; } \
    type __tsan_atomic##n##_fetch_sub(volatile type *a, type v, int mo) { PRE acq((void *)a, mo); rel((void *)a, mo, true); POST type o = *a; *a = o - v; return o; } \
    type __tsan_atomic##n##_fetch_and(volatile type *a, type v, int mo) { PRE acq((void *)a, mo); rel((void *)a, mo, true); POST type o = *a; *a = o & v; return o; } \
    type __tsan_atomic##n##_fetch_or(volatile type *a, type v, int mo) { PRE acq((void *)a, mo); rel((void *)a, mo, true); POST type o = *a; *a = o | v; return o; } \
    type __tsan_atomic##n##_fetch_xor(volatile type *a, type v, int mo) { PRE acq((void *)a, mo); rel((void *)a, mo, true); POST type o = *a; *a = o ^ v; return o; } \
    type __tsan_atomic##n##_fetch_nand(volatile type *a, type v, int mo) { PRE acq((void *)a, mo); rel((void *)a, mo, true); POST type o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile type *a, type *c, type v, int mo, int fmo) { \
        PRE if (*a == *c) { acq((void *)a, mo); rel((void *)a, mo, true); } else acq((void *)a, fmo); POST \
        type o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile type *a, type *c, type v, int mo, int fmo) { return __tsan_atomic##n##_compare_exchange_strong(a, c, v, mo, fmo); } \
    type __tsan_atomic##n##_compare_exchange_val(volatile type *a, type c, type v, int mo, int fmo) { __tsan_atomic##n##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { access((uintptr_t)s, n, false); access((uintptr_t)d, n, true); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access((uintptr_t)s, n, false); access((uintptr_t)d, n, true); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access((uintptr_t)d, n, true); return memset(d, c, n); }
}

void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new[](size_t n) { return operator new(n); }
static void release(void *p) {
    if (!p) return;
    if (active && me >= 0) {
        ++in_rt;
        forget((uintptr_t)p, malloc_usable_size(p) < 4096 ? malloc_usable_size(p) : 4096, true);
        if (nquar == quarcap) { quarcap = quarcap ? quarcap * 2 : 4096; quar = (void **)realloc(quar, quarcap * sizeof(void *)); }
        quar[nquar++] = p;
        --in_rt;
        return;
    }
    free(p);
}
void operator delete(void *p) noexcept { release(p); }
void operator delete[](void *p) noexcept { release(p); }
void operator delete(void *p, size_t) noexcept { release(p); }
void operator delete[](void *p, size_t) noexcept { release(p); }
