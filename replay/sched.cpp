// Deterministic user-level scheduler for real threads: exactly one managed thread runs at a time; mutexes, condition
// variables, futures, sleeps, clocks, thread creation/joining and (through the compiler's thread-sanitizer
// instrumentation, whose runtime entry points are defined here) every atomic access are scheduling points, plain
// accesses are with a small probability.  Time is virtual.  Sequentially consistent interleavings only.
#include "drv.h"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <future>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>

namespace {
enum St { RUN, MUTEX, COND, SLEEP, JOIN, FUT, DONE };
const char* stn[] = {"runnable", "waiting for a mutex", "waiting on a condition variable", "sleeping", "joining a thread", "waiting on a future", "finished"};
struct Th {
    int id; pthread_t real; St st = RUN; void* obj = nullptr; void* obj2 = nullptr; uint64_t deadline = 0; bool timed = false, timedout = false, everjoined = false;
    long prio = 0; std::atomic<int> go{0}; void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr; long streak = 0;
};
struct M { Th* owner = nullptr; int rec = 0; };
volatile bool on = false;
thread_local Th* me = nullptr;
std::vector<Th*> ths; std::unordered_map<void*, M>* mx; Th* cur_ = nullptr;
uint64_t vt = 0, limit_ns = 0, s_ = 1, hash_ = 0; int strat_ = 0, memp = 0; long steps = 0, memcnt = 0; int spur = 0, early = 1;
std::vector<long> change; long lowprio = 0; std::string hangkey = "hang"; long last_adv = 0;
uint64_t rnd() { s_ ^= s_ << 13; s_ ^= s_ >> 7; s_ ^= s_ << 17; return (s_ * 0x2545F4914F6CDD1Dull) >> 33; }

template <class F> F real(const char* n) { return (F) dlsym(RTLD_NEXT, n); }
#define REAL(ret, name, ...) static ret (*r)(__VA_ARGS__) = nullptr; if (!r) r = real<ret (*)(__VA_ARGS__)>(#name)

void fwait(std::atomic<int>* a) { while (a->load(std::memory_order_acquire) == 0) ::syscall(SYS_futex, (int*) a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); a->store(0, std::memory_order_relaxed); }
void fwake(std::atomic<int>* a) { a->store(1, std::memory_order_release); ::syscall(SYS_futex, (int*) a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

void die(const char* key, const std::string& t) { on = false; ds::fail(std::string(ds::cur) + ":" + key, t); }
std::string states() {
    std::string s; for (Th* t : ths) s += ds::fmt("thread %d %s%s; ", t->id, stn[t->st], t->timed ? " (timed)" : ""); return s;
}
void expire(uint64_t d) {
    if (d > vt) vt = d;
    for (Th* t : ths) if (t->st != RUN && t->st != DONE && t->timed && t->deadline <= vt) { t->timedout = true; t->timed = false; t->st = RUN; }
}
Th* choose(bool yielding) {
    for (;;) {
        std::vector<Th*> r; uint64_t first = UINT64_MAX;
        for (Th* t : ths) { if (t->st == RUN) r.push_back(t); else if (t->st != DONE && t->timed && t->deadline < first) first = t->deadline; }
        if (r.empty()) {
            if (first == UINT64_MAX) die(hangkey.c_str(), "no thread can ever run again: " + states());
            if (first > limit_ns) die(hangkey.c_str(), ds::fmt("nothing but timed polling happened until virtual time %.1f s: ", limit_ns / 1e9) + states());
            expire(first); continue;
        }
        if (early && first != UINT64_MAX && rnd() % 400 == 0 && first <= limit_ns) { expire(first); continue; }
        if (r.size() == 1) return r[0];
        Th* c = cur_;
        bool crun = c && c->st == RUN;
        if (crun && !yielding && c->streak > 3000) { c->streak = 0; yielding = true; }
        switch (strat_ & 3) {
            case 0: { Th* n = r[rnd() % r.size()]; if (yielding && n == c) n = r[rnd() % r.size()]; return n; }
            case 1: case 3: if (crun && !yielding && rnd() % ((strat_ & 4) ? 24 : 6)) return c; { Th* n = r[rnd() % r.size()]; if (yielding && n == c) n = r[rnd() % r.size()]; return n; }
            default: {
                if (yielding && crun) c->prio = --lowprio;
                if (!change.empty() && steps >= change.back()) { change.pop_back(); if (c) c->prio = --lowprio; }
                Th* b = r[0]; for (Th* t : r) if (t->prio > b->prio) b = t;
                return b;
            }
        }
    }
}
void swtch(bool yielding = false) {
    ++steps; vt += 50;
    if (steps > 30000000) { if (hangkey != "hang") die(hangkey.c_str(), "the program was still busy after 30 million steps"); fprintf(stderr, "@NOTE step limit in %s\n", ds::cur.c_str()); on = false; _exit(0); }
    Th* self = me; Th* n = choose(yielding);
    if (n == self) { self->streak++; return; }
    n->streak = 0; cur_ = n; fwake(&n->go);
    if (self->st != DONE) fwait(&self->go);
}
int nopre = 0;
inline bool act() { return on && me && !nopre; }
void point() { if (act()) swtch(); }
void block(St st, void* o, void* o2, bool timed, uint64_t dl) { me->st = st; me->obj = o; me->obj2 = o2; me->timed = timed; me->deadline = dl; me->timedout = false; swtch(); me->timed = false; }
void wake(St st, void* o) { for (Th* t : ths) if (t->st == st && t->obj == o) { t->st = RUN; t->timed = false; } }
bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
void acquire(void* m, bool rec) {
    for (;;) {
        M& x = (*mx)[m];
        if (!x.owner) { x.owner = me; x.rec = 1; return; }
        if (x.owner == me && rec) { x.rec++; return; }
        block(MUTEX, m, nullptr, false, 0);
    }
}
void release(void* m) { M& x = (*mx)[m]; if (x.owner != me) return; if (--x.rec == 0) { x.owner = nullptr; wake(MUTEX, m); } }
void* tramp(void* p) {
    Th* t = (Th*) p; me = t; fwait(&t->go);
    t->ret = t->fn(t->arg);
    t->st = DONE; wake(JOIN, t);
    Th* n = choose(true); cur_ = n; n->streak = 0; me = nullptr; fwake(&n->go);
    return t->ret;
}
uint64_t ts2ns(const struct timespec* t) { return (uint64_t) t->tv_sec * 1000000000ull + t->tv_nsec; }
const uint64_t BASE = 1700000000ull * 1000000000ull;
bool cwait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t dl) {     // true: timed out
    swtch();
    int rec = (*mx)[m].rec; (void) rec;
    if (spur && rnd() % 32 == 0) { release(m); swtch(true); acquire(m, recursive(m)); return false; }
    if (timed && dl <= vt) { release(m); swtch(true); acquire(m, recursive(m)); return true; }
    release(m); block(COND, c, m, timed, dl); bool to = me->timedout; acquire(m, recursive(m)); return to;
}
}

extern "C" {
void ds_begin(uint64_t seed, int strat) {
    for (Th* t : ths) delete t; ths.clear(); delete mx; mx = new std::unordered_map<void*, M>();
    s_ = seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull; rnd(); rnd(); strat_ = strat; steps = 0; vt = 0; limit_ns = 20ull * 1000000000ull; hash_ = 1469598103934665603ull; spur = 0; early = 1; hangkey = "hang";
    memp = (strat & 8) ? 1 + rnd() % 60 : 0; memcnt = memp; lowprio = 0; change.clear();
    Th* t = new Th(); t->id = 0; t->prio = 1000 + rnd() % 1000; ths.push_back(t); me = t; cur_ = t;
    int d = 1 + rnd() % 4; for (int i = 0; i < d; ++i) change.push_back(rnd() % (i < 2 ? 300 : 3000));
    std::vector<long>& c = change; for (size_t i = 0; i < c.size(); ++i) for (size_t j = i + 1; j < c.size(); ++j) if (c[i] < c[j]) { long x = c[i]; c[i] = c[j]; c[j] = x; }
    on = true;
}
void ds_end() {
    for (;;) { bool alive = false; for (Th* t : ths) if (t != me && t->st != DONE) alive = true; if (!alive) break; me->st = SLEEP; me->timed = true; me->deadline = vt + 1000000; swtch(true); me->timed = false; }
    on = false; me = nullptr;
}
void ds_point() { point(); }
long ds_now_us() { return (long) (vt / 1000); }
void ds_note(uint64_t v) { hash_ = (hash_ ^ v) * 1099511628211ull; }
uint64_t ds_hash() { return hash_; }
void ds_limit_us(long us) { limit_ns = (uint64_t) us * 1000; }
void ds_hang_key(const char* k) { hangkey = k; }
void ds_spurious(int x) { spur = x; }
void ds_early(int x) { early = x; }
int ds_tid() { return me ? me->id : -1; }
long ds_steps() { return steps; }
void ds_nopre(int d) { nopre += d; }
void ds_fail(const char* k, const char* t) { ds::fail(k, t); }

int pthread_mutex_lock(pthread_mutex_t* m) { if (!act()) { REAL(int, pthread_mutex_lock, pthread_mutex_t*); return r(m); } swtch(); acquire(m, recursive(m)); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!act()) { REAL(int, pthread_mutex_trylock, pthread_mutex_t*); return r(m); }
    swtch(); M& x = (*mx)[m]; if (x.owner && !(x.owner == me && recursive(m))) return EBUSY; x.owner = me; x.rec++; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!act()) { REAL(int, pthread_mutex_unlock, pthread_mutex_t*); return r(m); } release(m); swtch(); return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) { if (act()) { mx->erase(m); return 0; } return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!act()) { REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*); return r(c, m); } cwait(c, m, false, 0); return 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { if (!act()) { REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const struct timespec*); return r(c, m, t); } uint64_t n = ts2ns(t); return cwait(c, m, true, n > BASE ? n - BASE : 0) ? ETIMEDOUT : 0; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { if (!act()) { REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*); return r(c, m, k, t); } uint64_t n = ts2ns(t); return cwait(c, m, true, n > BASE ? n - BASE : 0) ? ETIMEDOUT : 0; }
int pthread_cond_signal(pthread_cond_t* c) {
    if (!act()) { REAL(int, pthread_cond_signal, pthread_cond_t*); return r(c); }
    swtch(); std::vector<Th*> w; for (Th* t : ths) if (t->st == COND && t->obj == c) w.push_back(t);
    if (!w.empty()) { Th* t = w[rnd() % w.size()]; t->st = RUN; t->timed = false; } return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) { if (!act()) { REAL(int, pthread_cond_broadcast, pthread_cond_t*); return r(c); } swtch(); wake(COND, c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) { if (!act()) { return 0; } return 0; }
int pthread_create(pthread_t* p, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    static int (*r)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) = nullptr; if (!r) r = real<decltype(r)>("pthread_create");
    if (!act()) return r(p, a, fn, arg);
    Th* t = new Th(); t->id = (int) ths.size(); t->fn = fn; t->arg = arg; t->prio = 1000 + rnd() % 1000; ths.push_back(t);
    int rc = r(p, a, tramp, t); t->real = *p; swtch(); return rc;
}
int pthread_join(pthread_t p, void** rv) {
    REAL(int, pthread_join, pthread_t, void**);
    if (act()) { swtch(); for (Th* t : ths) if (t->id && pthread_equal(t->real, p) && !t->everjoined) { while (t->st != DONE) block(JOIN, t, nullptr, false, 0); t->everjoined = true; break; } }
    return r(p, rv);
}
int sched_yield() { if (!act()) return 0; swtch(true); return 0; }
static void vsleep(uint64_t ns) { block(SLEEP, nullptr, nullptr, true, vt + ns); }
int nanosleep(const struct timespec* t, struct timespec* rem) { if (!act()) { REAL(int, nanosleep, const struct timespec*, struct timespec*); return r(t, rem); } vsleep(ts2ns(t)); return 0; }
int clock_nanosleep(clockid_t c, int f, const struct timespec* t, struct timespec* rem) { if (!act()) { REAL(int, clock_nanosleep, clockid_t, int, const struct timespec*, struct timespec*); return r(c, f, t, rem); } if (f) { uint64_t n = ts2ns(t) - BASE; if (n > vt) vsleep(n - vt); } else vsleep(ts2ns(t)); return 0; }
int usleep(useconds_t u) { if (!act()) { struct timespec t = {u / 1000000, (long) (u % 1000000) * 1000}; return nanosleep(&t, nullptr); } vsleep((uint64_t) u * 1000); return 0; }
int clock_gettime(clockid_t c, struct timespec* t) {
    if (!act()) { return (int) ::syscall(SYS_clock_gettime, c, t); }
    vt += 100; uint64_t n = BASE + vt; t->tv_sec = n / 1000000000ull; t->tv_nsec = n % 1000000000ull; return 0;
}
int gettimeofday(struct timeval* t, void*) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
int pthread_once(pthread_once_t* o, void (*f)()) {
    volatile int* v = (volatile int*) o;
    for (;;) { if (*v == 2) return 0; if (*v == 0) break; if (act()) swtch(true); }
    *v = 1; try { f(); } catch (...) { *v = 0; throw; } *v = 2; return 0;
}
int __cxa_guard_acquire(uint64_t* g) { volatile char* c = (volatile char*) g; for (;;) { if (c[0]) return 0; if (!c[1]) { c[1] = 1; return 1; } if (act()) swtch(true); } }
void __cxa_guard_release(uint64_t* g) { volatile char* c = (volatile char*) g; c[0] = 1; c[1] = 0; }
void __cxa_guard_abort(uint64_t* g) { volatile char* c = (volatile char*) g; c[1] = 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!act()) { REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*); return r(m); } swtch(); acquire(m, false); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!act()) { REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*); return r(m); } swtch(); acquire(m, false); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!act()) { REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*); return r(m); } release(m); swtch(); return 0; }

// ---- thread-sanitizer entry points
static inline void mem() { if (memp && on && me && !nopre && --memcnt <= 0) { memcnt = memp + (long) (rnd() % (memp + 1)); swtch(); } }
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void*) { mem(); } void __tsan_write##n(void*) { mem(); } void __tsan_unaligned_read##n(void*) { mem(); } void __tsan_unaligned_write##n(void*) { mem(); } void __tsan_volatile_read##n(void*) { mem(); } void __tsan_volatile_write##n(void*) { mem(); } void __tsan_read##n##_pc(void*, void*) { mem(); } void __tsan_write##n##_pc(void*, void*) { mem(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void**, void*) {} void __tsan_vptr_read(void**) {}
void __tsan_read_range(void*, unsigned long) { mem(); } void __tsan_write_range(void*, unsigned long) { mem(); }
void __tsan_atomic_thread_fence(int) { point(); } void __tsan_atomic_signal_fence(int) {}
#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T* a, int) { point(); return __atomic_load_n(a, 5); } \
void __tsan_atomic##bits##_store(volatile T* a, T v, int) { point(); __atomic_store_n(a, v, 5); } \
T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { point(); return __atomic_exchange_n(a, v, 5); } \
T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { point(); return __atomic_fetch_add(a, v, 5); } \
T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { point(); return __atomic_fetch_sub(a, v, 5); } \
T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { point(); return __atomic_fetch_and(a, v, 5); } \
T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { point(); return __atomic_fetch_or(a, v, 5); } \
T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { point(); return __atomic_fetch_xor(a, v, 5); } \
T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { point(); return __atomic_fetch_nand(a, v, 5); } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { point(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { point(); if (act() && rnd() % 16 == 0) { *c = __atomic_load_n(a, 5); return 0; } return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { point(); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}

namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds n) {
    if (!act()) { sched_yield(); struct timespec t = {0, 50000}; nanosleep(&t, nullptr); if (!timed) return true; struct timespec k; clock_gettime(CLOCK_REALTIME, &k); return !(k.tv_sec > s.count() || (k.tv_sec == s.count() && k.tv_nsec >= n.count())); }
    swtch(); if (__atomic_load_n(a, 5) != v) return true;
    uint64_t d = (uint64_t) s.count() * 1000000000ull + n.count(); d = d > BASE ? d - BASE : 0;
    if (timed && d <= vt) return false;
    block(FUT, a, nullptr, timed, d); return !me->timedout;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds n) {
    if (!act()) { struct timespec t = {0, 50000}; nanosleep(&t, nullptr); if (!timed) return true; struct timespec k; clock_gettime(CLOCK_MONOTONIC, &k); return !(k.tv_sec > s.count() || (k.tv_sec == s.count() && k.tv_nsec >= n.count())); }
    return _M_futex_wait_until(a, v, timed, s, n);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) { if (!act()) return; wake(FUT, a); swtch(); }
}

// ------------------------------------------------------------------ scenario runner
namespace ds {
std::string cur = "?", descr;
std::vector<Scenario>& all() { static std::vector<Scenario> v; return v; }
std::string fmt(const char* f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static std::vector<Ev> evs;
std::vector<Ev>& events() { return evs; }
static bool logbusy = false;      // scenarios outside the scheduler log from truly parallel threads
void log(int a, int b, long c) {
    while (__atomic_test_and_set(&logbusy, __ATOMIC_ACQUIRE)) {}
    evs.push_back(Ev{a, b, c}); ds_note((uint64_t) a * 31 + b * 7 + c);
    __atomic_clear(&logbusy, __ATOMIC_RELEASE);
}
static uint64_t curseed; static int curstrat;
static bool failing = false;
struct Stat { long n = 0; std::set<uint64_t> d; };
static std::vector<Stat> stats;
void report() { for (size_t i = 0; i < all().size() && i < stats.size(); ++i) fprintf(stderr, "@RUN %s %ld %ld\n", all()[i].name, stats[i].n, (long) stats[i].d.size()); }
void fail(const std::string& key, const std::string& text) {
    on = false; if (failing) _exit(1); failing = true;
    std::string k = key; for (char& c : k) if (c == ' ' || c == '|') c = '_';
    fprintf(stderr, "@FAIL %s | scenario %s seed %llu strategy %d: %s [case: %s]\n", k.c_str(), cur.c_str(), (unsigned long long) curseed, curstrat, text.c_str(), descr.c_str());
    report(); fflush(stderr); _exit(1);
}
static void onsig(int s) { on = false; if (!failing) { failing = true; const char* m = s == SIGALRM ? "@NOTE watchdog" : "@FAIL "; if (s == SIGALRM) fprintf(stderr, "%s in %s seed %llu\n", m, cur.c_str(), (unsigned long long) curseed); else fprintf(stderr, "%s%s:crash | scenario %s seed %llu strategy %d: killed by signal %d [case: %s]\n", m, cur.c_str(), cur.c_str(), (unsigned long long) curseed, curstrat, s, descr.c_str()); } _exit(s == SIGALRM ? 0 : 1); }
int main_(int, char**) {
    uint64_t base = getenv("DRV_SEED") ? strtoull(getenv("DRV_SEED"), nullptr, 10) : 1; double secs = getenv("DRV_SECONDS") ? atof(getenv("DRV_SECONDS")) : 10;
    std::string only = getenv("DRV_ONLY") ? getenv("DRV_ONLY") : ""; long fixed = -1; size_t c = only.find(':'); if (c != std::string::npos) { fixed = atol(only.c_str() + c + 1); only = only.substr(0, c); }
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, onsig);
    stats.resize(all().size());
    struct timespec t0; ::syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t0);
    auto el = [&] { struct timespec t; ::syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return (t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) / 1e9; };
    int nsample = 0;
    static const int strats[] = {0, 1, 2, 9, 5, 2, 8, 13, 10, 3};
    for (long it = 0; el() < secs; ++it) {
        for (size_t i = 0; i < all().size(); ++i) {
            Scenario& s = all()[i]; if (!only.empty() && only != s.name) continue;
            if (el() > secs && it > 0) break;
            curseed = fixed >= 0 ? (uint64_t) fixed : base * 1000003 + it; cur = s.name; descr = ""; curstrat = strats[curseed % 10];
            if (it == 0) fprintf(stderr, "@CUR %s\n", s.name);
            Rng rng(curseed * 7919 + 13); alarm(60); evs.clear(); hash_ = 1469598103934665603ull;
            if (s.sched) { ds_begin(curseed, curstrat); s.fn(curseed, rng); ds_end(); } else s.fn(curseed, rng);
            alarm(0); stats[i].n++; for (char ch : descr) ds_note((uint64_t) ch); stats[i].d.insert(hash_);
            if (nsample < 6 && it % 7 == 0 && !descr.empty()) { nsample++; fprintf(stderr, "@SAMPLE %s seed %llu: %s\n", s.name, (unsigned long long) curseed, descr.substr(0, 400).c_str()); }
        }
        if (fixed >= 0) break;
    }
    report(); fflush(stderr); _exit(0);
}
}
int main(int c, char** v) { return ds::main_(c, v); }
