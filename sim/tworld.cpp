// Threads of one node: real OS threads run the real library, but only one at a time; at every memory access, function
// entry, atomic, lock, allocation and deallocation of the real code the simulator decides who runs next.
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <linux/futex.h>
#include <locale.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>

#include <iomanip>
#include <iostream>
#include <memory>
#include <new>
#include <optional>
#include <sstream>

#include "api.h"
#include "common.hpp"
#include "model.hpp"
#include "tsanrt.hpp"

using namespace sim;
using model::Val;

// ---- memory ------------------------------------------------------------------------------------
// Every owner (main, each thread) has its own arena at a fixed address; blocks are never used twice within a run, are
// filled when handed out and taken back, and a block given back twice is noticed.
static const size_t MAXT = 4, ARENA = 1ull << 30, STACK = 1 << 20;
static const u64 ARENA0 = 0x200000000000ull, STACK0 = 0x300000000000ull, MAGIC = 0x6d616d6d6f6e2121ull, GONE = 0x6465616462656566ull;
struct Arena {
    u64 lo = 0, at = 0, hi = 0, high = 0;
    void map(size_t k) {
        lo = at = ARENA0 + k * ARENA;
        hi = lo + ARENA;
        if (mmap((void *)lo, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)lo) { fprintf(stderr, "arena\n"); _exit(4); }
    }
    void reset() {
        if (at - lo > (64u << 20)) madvise((void *)lo, at - lo, MADV_DONTNEED);
        at = lo;
    }
    bool has(u64 a) const { return a >= lo && a < hi; }
};
static Arena arena[MAXT + 1];  // [MAXT]: the main thread while it runs node code
static bool main_in_node = false, arenas_on = false;
static bool on_main_thread();
#define SIM_RECORD_TLS(dso) on_main_thread()
#include "module.hpp"
static inline bool in_arenas(u64 a) { return a >= ARENA0 && a < ARENA0 + (MAXT + 1) * ARENA; }

// ---- threads -----------------------------------------------------------------------------------
struct T {
    int id = 0;
    pthread_t th{};
    u32 sem = 0;  // futex
    u64 n = 0;    // accesses so far
    u64 stop_at = 0;
    bool done = false;
    const void *blocked = nullptr;
    bool in_op = false, started = false;
    int kind = -1;
    u64 spin = 0;
    u64 stk_lo = 0, stk_hi = 0;
};
static __thread T *self __attribute__((tls_model("initial-exec"))) = nullptr;
static __thread int quiet __attribute__((tls_model("initial-exec"))) = 0;  // the simulator itself is running on this thread

static bool on_main_thread() { return !self; }

struct Sw { u64 t, n, u; };
static struct Sched {
    T th[MAXT];
    size_t N = 0;
    u32 main_sem = 0;
    bool explicit_ = false;
    std::vector<Sw> sw[MAXT];
    size_t swi[MAXT] = {};
    Rng r{0};
    u64 K = 300, hotnum = 1, hotden = 2;
    long countdown = 0;
    u64 total = 0, budget = 0;
    u64 switches = 0, inside = 0, hot = 0, forced = 0, allocs = 0, blocks = 0, atomics = 0;
    u64 sw_hash = 0;
    bool failed = false;
    Ctx *c = nullptr;
    struct Rec { u32 n; Sw s[60000]; } *rec = nullptr;
    // written addresses that do not belong to the writer
    std::vector<u64> fw;
    size_t fwn = 0;
} S;

// What the whole process shares and no operation of the library may be seen changing.
struct Proc {
    std::string loc;
    std::new_handler nh = nullptr;
    std::terminate_handler th = nullptr;
    struct Str { std::ios_base::fmtflags f; std::streamsize p, w; std::ios_base::iostate e; std::streambuf *b; char fill; bool operator==(const Str &) const = default; } s[4];
    static Str of(std::ostream &o) { return {o.flags(), o.precision(), o.width(), o.exceptions(), o.rdbuf(), o.fill()}; }
    void take() {
        loc = setlocale(LC_ALL, nullptr);
        nh = std::get_new_handler();
        th = std::get_terminate();
        s[0] = of(std::cout); s[1] = of(std::cerr); s[2] = of(std::clog);
        s[3] = {std::cin.flags(), std::cin.precision(), std::cin.width(), std::cin.exceptions(), std::cin.rdbuf(), ' '};
    }
    // The state every run starts from.  The locale is not the one programs start in, so that a call that goes back to that one is seen.
    static void canon() {
        if (!setlocale(LC_ALL, "C.UTF-8")) setlocale(LC_ALL, "C");
        std::ostream *const o[] = {&std::cout, &std::cerr, &std::clog};
        for (auto *x : o) {
            x->flags(std::ios_base::skipws | std::ios_base::dec | (x == &std::cerr ? std::ios_base::unitbuf : std::ios_base::fmtflags{}));
            x->precision(6);
            x->width(0);
            x->fill(' ');
            x->exceptions(std::ios_base::goodbit);
        }
        std::cin.flags(std::ios_base::skipws | std::ios_base::dec);
        std::cin.exceptions(std::ios_base::goodbit);
    }
    const char *changed(bool cout_used) const {
        if (loc != setlocale(LC_ALL, nullptr)) return "the locale of the process";
        if (nh != std::get_new_handler()) return "the new handler";
        if (th != std::get_terminate()) return "the terminate handler";
        if (!cout_used && s[0] != of(std::cout)) return "the formatting state of std::cout";
        if (s[1] != of(std::cerr)) return "the formatting state of std::cerr";
        if (s[2] != of(std::clog)) return "the formatting state of std::clog";
        if (std::cin.flags() != s[3].f || std::cin.exceptions() != s[3].e || std::cin.rdbuf() != s[3].b) return "the state of std::cin";
        return nullptr;
    }
};
static Proc proc0;
extern const int KIND_COUT;  // an operation that uses std::cout itself
static void proc_check(T *t);
static void fut_wait(u32 *f) {
    while (__atomic_exchange_n(f, 0, __ATOMIC_ACQ_REL) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
}
static void fut_post(u32 *f) {
    __atomic_store_n(f, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
static void die(const char *cls, const char *msg) {
    if (g_in_run) crash_line(cls, msg);
    _exit(g_in_run ? 3 : 4);
}
static bool warming = false;  // executions before the first run
static void proc_check(T *t) {  // another thread is about to run while t is in the middle of a call of the library, or has finished one
    if (t->kind == KIND_COUT || warming) return;
    bool used = false;
    for (size_t i = 0; i < S.N; i++) used |= S.th[i].in_op && S.th[i].kind == KIND_COUT;
    if (const char *w = proc0.changed(used)) {
        static char m[160];
        snprintf(m, sizeof m, "%s is changed while other threads run", w);
        die("process-state-changed", m);
    }
}
static bool runnable(size_t i) { return i < S.N && !S.th[i].done && !S.th[i].blocked; }
static int next_of(int t) {
    for (size_t k = 1; k <= S.N; k++) {
        size_t u = (t + k) % S.N;
        if (runnable(u)) return int(u);
    }
    return -1;
}
static long gap() {  // geometric with mean K, never zero
    u64 x = S.r.next() >> 11;
    double u = (double(x) + 1) / 9007199254740993.0;
    double g = -double(S.K) * __builtin_log(u);
    return g < 1 ? 1 : g > 1e9 ? 1000000000 : long(g);
}
static void next_stop(T *t) {
    auto &v = S.sw[t->id];
    t->stop_at = S.swi[t->id] < v.size() ? v[S.swi[t->id]].n : ~0ull;
}
static void go_to(T *t, int u, bool planned) {
    if (u < 0 || u == t->id) return;
    S.switches++;
    T &v = S.th[u];
    if (t->in_op) proc_check(t);
    if (t->in_op && v.in_op) S.inside++;
    S.sw_hash = mix(S.sw_hash, mix(t->id, t->n, u));
    if (S.c) {
        S.c->state(mix(0x77, t->kind + 1, v.kind + 1));
        S.c->shape = mix(S.c->shape, mix(t->kind + 1, v.kind + 1, planned));
    }
    t->spin = 0;
    fut_post(&v.sem);
    fut_wait(&t->sem);
}
static void slow(T *t, bool hot) {  // a point at which the policy may switch
    quiet++;
    if (S.explicit_) {
        while (t->n >= t->stop_at) {
            Sw s = S.sw[t->id][S.swi[t->id]++];
            next_stop(t);
            if (s.n == t->n) {
                int u = int(s.u % S.N);
                if (runnable(u)) go_to(t, u, true);
            }
        }
    } else {
        bool sw = false;
        if (S.countdown <= 0) { sw = true; S.countdown = gap(); }
        if (hot && S.r.below(S.hotden) < S.hotnum) sw = true;
        if (sw) {
            int c[MAXT], k = 0;
            for (size_t i = 0; i < S.N; i++)
                if (int(i) != t->id && runnable(i)) c[k++] = int(i);
            if (k) {
                int u = c[S.r.below(k)];
                if (S.rec && S.rec->n < 60000) S.rec->s[S.rec->n++] = {u64(t->id), t->n, u64(u)};
                go_to(t, u, true);
            }
        }
    }
    quiet--;
}
static void rotate(T *t) {  // it only spins: let another one run
    quiet++;
    S.forced++;
    t->spin = 0;
    go_to(t, next_of(t->id), false);
    quiet--;
}
static inline void point(T *t, bool hot) {
    t->n++;
    if (++S.total > S.budget) { quiet++; die("hang", "threads made no end within the step budget"); }
    if (S.explicit_) {
        if (__builtin_expect(t->n >= t->stop_at, 0)) slow(t, hot);
    } else if (__builtin_expect(--S.countdown <= 0 || hot, 0)) slow(t, hot);
    if (__builtin_expect(++t->spin > 3000000, 0)) rotate(t);
}
static void block(T *t, const void *on) {
    quiet++;
    S.blocks++;
    t->blocked = on;
    int u = next_of(t->id);
    if (u < 0) die("deadlock", "every thread waits for another one");
    S.switches++;
    S.sw_hash = mix(S.sw_hash, mix(t->id, t->n, u), 5);
    fut_post(&S.th[u].sem);
    fut_wait(&t->sem);
    quiet--;
}
static void wake(const void *on, size_t most = MAXT) {
    for (size_t i = 0; i < S.N && most; i++)
        if (S.th[i].blocked == on) { S.th[i].blocked = nullptr; most--; }
}
static bool fw_has(u64 g) {
    size_t m = S.fw.size() - 1;
    for (size_t i = mix(g) & m;; i = (i + 1) & m) {
        if (S.fw[i] == g) return true;
        if (!S.fw[i]) return false;
    }
}
static void fw_add(u64 g) {
    if (S.fwn * 2 >= S.fw.size()) return;  // full: later ones are scheduled like any other access
    size_t m = S.fw.size() - 1;
    for (size_t i = mix(g) & m;; i = (i + 1) & m) {
        if (S.fw[i] == g) return;
        if (!S.fw[i]) { S.fw[i] = g; S.fwn++; return; }
    }
}
static inline bool is_hot(T *t, u64 a, size_t n, bool write) {
    if (a >= t->stk_lo && a < t->stk_hi) return false;
    bool mine = arena[t->id].has(a);
    if (write && !mine) {
        quiet++;
        for (u64 g = a >> 3; g <= (a + n - 1) >> 3 && g < (a >> 3) + 512; g++) fw_add(g + 1);
        quiet--;
        return true;
    }
    if (!S.fwn) return false;
    for (u64 g = a >> 3; g <= (a + n - 1) >> 3 && g < (a >> 3) + 512; g++)
        if (fw_has(g + 1)) return true;
    return false;
}
namespace hooks {
void access(const void *a, size_t n, bool write) {
    T *t = self;
    if (!t || quiet) return;
    bool h = is_hot(t, (u64)a, n, write);
    S.hot += h;
    point(t, h);
}
void entry() {
    T *t = self;
    if (!t || quiet) return;
    point(t, false);
}
void atomic(const void *a, size_t n, bool write) {
    T *t = self;
    if (!t || quiet) return;
    S.atomics++;
    bool h = is_hot(t, (u64)a, n, write);
    S.hot += h;
    t->spin += 3000;
    point(t, h);
}
}  // namespace hooks

// ---- allocation --------------------------------------------------------------------------------
static thread_local int lib_init = 0;  // inside the first initialisation of a static of a library, which outlives the run
static void *take(size_t n, size_t al) {
    T *t = self;
    Arena *A = !arenas_on || lib_init ? nullptr : t && !quiet ? &arena[t->id] : !t && main_in_node ? &arena[MAXT] : nullptr;
    if (!A) {
        void *p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
        if (!p) throw std::bad_alloc();
        return p;
    }
    if (al < 16) al = 16;
    u64 p = (A->at + 32 + al - 1) / al * al;
    if (n > ARENA || p + n + 64 > A->hi) throw std::bad_alloc();
    A->at = p + n + 16;
    ((u64 *)p)[-1] = MAGIC;
    ((u64 *)p)[-2] = n;
    memset((void *)p, 0xcb, n);
    if (t) { S.allocs++; point(t, false); }
    return (void *)p;
}
static void give(void *p) {
    if (!p) return;
    if (!in_arenas((u64)p)) return free(p);
    T *t = self;
    if (t && !quiet) point(t, !arena[t->id].has((u64)p));
    u64 *h = (u64 *)p;
    if (h[-1] != MAGIC) { quiet++; die(h[-1] == GONE ? "double-free" : "invalid-free", "memory was given back that is not in use"); }
    h[-1] = GONE;
    memset(p, 0x34, h[-2]);
    if (t && !quiet && !arena[t->id].has((u64)p)) { quiet++; for (u64 g = (u64)p >> 3; g < ((u64)p + std::min<u64>(h[-2], 4096)) >> 3; g++) fw_add(g + 1); quiet--; }
}
void *operator new(size_t n) { return take(n, 0); }
void *operator new[](size_t n) { return take(n, 0); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return take(n, 0); } catch (...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return take(n, 0); } catch (...) { return nullptr; } }
void *operator new(size_t n, std::align_val_t a) { return take(n, size_t(a)); }
void *operator new[](size_t n, std::align_val_t a) { return take(n, size_t(a)); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, size_t) noexcept { give(p); }
void operator delete[](void *p, size_t) noexcept { give(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { give(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { give(p); }
void operator delete(void *p, std::align_val_t) noexcept { give(p); }
void operator delete[](void *p, std::align_val_t) noexcept { give(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { give(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { give(p); }

// ---- locks and waiting: the same calls the real code makes, with blocking done by the scheduler -----
template <class X> struct Id { using type = X; };
#define TYPE(...) Id<__VA_ARGS__>::type
#define REAL(f, T, name) static Id<T>::type f; if (!f) f = (Id<T>::type)dlsym(RTLD_NEXT, name)  // no guard: guards are the simulator's too
#define REAL1(name, A) REAL(f, int (*)(A), #name)
static bool managed() { return self && !quiet; }
static void lock_point() { T *t = self; t->n++; S.total++; slow(t, true); }
extern "C" {
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
    REAL1(pthread_mutex_trylock, pthread_mutex_t *);
    if (managed()) lock_point();
    return f(m);
}
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
    REAL1(pthread_mutex_lock, pthread_mutex_t *);
    REAL(tr, TYPE(int (*)(pthread_mutex_t *)), "pthread_mutex_trylock");
    if (!managed()) return f(m);
    lock_point();
    for (;;) {
        int r = tr(m);
        if (r != EBUSY) return r;
        block(self, m);
    }
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
    REAL1(pthread_mutex_unlock, pthread_mutex_t *);
    int r = f(m);
    if (managed()) { wake(m); lock_point(); }
    return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept {
    REAL1(pthread_rwlock_rdlock, pthread_rwlock_t *);
    REAL(tr, TYPE(int (*)(pthread_rwlock_t *)), "pthread_rwlock_tryrdlock");
    if (!managed()) return f(m);
    lock_point();
    for (;;) {
        int r = tr(m);
        if (r != EBUSY) return r;
        block(self, m);
    }
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept {
    REAL1(pthread_rwlock_wrlock, pthread_rwlock_t *);
    REAL(tr, TYPE(int (*)(pthread_rwlock_t *)), "pthread_rwlock_trywrlock");
    if (!managed()) return f(m);
    lock_point();
    for (;;) {
        int r = tr(m);
        if (r != EBUSY) return r;
        block(self, m);
    }
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept {
    REAL1(pthread_rwlock_unlock, pthread_rwlock_t *);
    int r = f(m);
    if (managed()) { wake(m); lock_point(); }
    return r;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    REAL(f, TYPE(int (*)(pthread_cond_t *, pthread_mutex_t *)), "pthread_cond_wait");
    if (!managed()) return f(c, m);
    REAL(un, TYPE(int (*)(pthread_mutex_t *)), "pthread_mutex_unlock");
    un(m);
    wake(m);
    block(self, c);
    return pthread_mutex_lock(m);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    REAL(f, TYPE(int (*)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *)), "pthread_cond_timedwait");
    if (!managed()) return f(c, m, ts);
    pthread_mutex_unlock(m);
    rotate(self);
    pthread_mutex_lock(m);
    return ETIMEDOUT;
}
int pthread_cond_signal(pthread_cond_t *c) noexcept {
    REAL(f, TYPE(int (*)(pthread_cond_t *)), "pthread_cond_signal");
    if (!managed()) return f(c);
    wake(c, 1);
    lock_point();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) noexcept {
    REAL(f, TYPE(int (*)(pthread_cond_t *)), "pthread_cond_broadcast");
    if (!managed()) return f(c);
    wake(c);
    lock_point();
    return 0;
}
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
    REAL(f, TYPE(int (*)(pthread_once_t *, void (*)(void))), "pthread_once");
    if (!managed()) return f(o, fn);
    lock_point();
    while (*o != 2) {
        if (*o == 0) {
            *o = 1;
            try { fn(); } catch (...) { *o = 0; wake(o); throw; }
            *o = 2;
            wake(o);
            lock_point();
        } else
            block(self, o);
    }
    return 0;
}
int sched_yield(void) noexcept {
    if (!managed()) return int(syscall(SYS_sched_yield));
    rotate(self);
    return 0;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
    REAL(f, TYPE(int (*)(const struct timespec *, struct timespec *)), "nanosleep");
    if (!managed()) return f(a, b);
    rotate(self);
    return 0;
}
int clock_nanosleep(clockid_t k, int fl, const struct timespec *a, struct timespec *b) {
    REAL(f, TYPE(int (*)(clockid_t, int, const struct timespec *, struct timespec *)), "clock_nanosleep");
    if (!managed()) return f(k, fl, a, b);
    rotate(self);
    return 0;
}
// function-local statics
static bool of_library(void *g) {
    Dl_info i;
    return dladdr(g, &i) && i.dli_fname && strncmp(i.dli_fname, "/proc/self/fd/", 14);
}
int __cxa_guard_acquire(long long *g) {
    u8 *b = (u8 *)g;
    bool lib = of_library(g);
    for (;;) {
        if (managed() && !lib) lock_point();
        if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
        if (!b[1]) { b[1] = 1 + (self ? self->id : 9); lib_init += lib; return 1; }
        if (!managed() || b[1] == 1 + self->id) { quiet++; die("deadlock", "a function-local static is initialised while it is being initialised"); }
        block(self, g);
    }
}
void __cxa_guard_release(long long *g) {
    u8 *b = (u8 *)g;
    bool lib = of_library(g);
    b[1] = 0;
    lib_init -= lib;
    __atomic_store_n(b, 1, __ATOMIC_RELEASE);
    if (managed() && !lib) { wake(g); lock_point(); }
}
void __cxa_guard_abort(long long *g) {
    ((u8 *)g)[1] = 0;
    bool lib = of_library(g);
    lib_init -= lib;
    if (managed() && !lib) { wake(g); lock_point(); }
}
}

// ---- the node ----------------------------------------------------------------------------------
static std::vector<u8> image;
struct Slotfd { std::string path; bool busy = false; };
static std::vector<Slotfd> pool;
struct Node {
    void *h = nullptr;
    const NodeApi *api = nullptr;
    Slotfd *sf = nullptr;
    void start() {
        pool.reserve(4096);
        for (auto &s : pool) if (!s.busy) sf = &s;
        if (!sf) {
            if (pool.size() > 4000) { fprintf(stderr, "node modules are not unloaded\n"); _exit(4); }
            int fd = memfd_create("node", MFD_CLOEXEC);
            if (fd < 0 || write(fd, image.data(), image.size()) != (ssize_t)image.size()) { fprintf(stderr, "memfd\n"); _exit(4); }
            pool.push_back({"/proc/self/fd/" + std::to_string(fd), false});
            sf = &pool.back();
        }
        sf->busy = true;
        main_in_node = true;
        h = dlopen(sf->path.c_str(), RTLD_NOW | RTLD_LOCAL);
        main_in_node = false;
        if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(4); }
        api = ((const NodeApi *(*)())dlsym(h, "mammon_node"))();
    }
    void stop() {
        main_in_node = true;
        run_tls_dtors(h);
        dlclose(h);
        main_in_node = false;
        if (!dlopen(sf->path.c_str(), RTLD_NOW | RTLD_NOLOAD)) sf->busy = false;
        h = nullptr;
        sf = nullptr;
    }
    const TypeOps *ops(const char *name) const {
        for (size_t p = 0; p < api->nparts; p++)
            for (size_t i = 0; i < *api->parts[p].n; i++)
                if (!strcmp(api->parts[p].types[i].name, name)) return &api->parts[p].types[i];
        fprintf(stderr, "the node has no type %s\n", name);
        _exit(4);
    }
};

// ---- operations --------------------------------------------------------------------------------
enum Kind {
    K_DECODE, K_DAMAGED, K_ENCODE, K_ROOT, K_EQUAL, K_ASSIGN, K_CLONE, K_YOUT, K_YIN, K_HEX, K_PRINT, K_TREE, K_POKE, K_NEW, K_MOVE,
    K_SENC, K_SROOT, K_SEQUAL, K_SCLONE, K_SYOUT, K_SHEX, K_SPRINT, K_SASSIGN, K_COUT, K_N
};
const int KIND_COUT = K_COUT;
static const char *const KN[] = {"decode", "decode of a damaged payload", "encode", "root", "compare", "assign", "copy", "write text", "read text", "hexadecimal", "print", "hash tree", "change in place", "create", "move",
                                 "encode of a shared object", "root of a shared object", "compare with a shared object", "copy of a shared object", "write text of a shared object", "hexadecimal of a shared object",
                                 "print of a shared object", "assign from a shared object", "use of std::cout"};
struct Op {
    int kind;
    u64 a, b;
    Bytes data;
};
struct Out {
    u64 h = 0xcbf29ce484222325ull, n = 0;
    u8 first[40] = {};
    static void sink(void *x, const u8 *p, size_t n) {
        quiet++;
        Out *o = (Out *)x;
        for (size_t i = 0; i < n; i++) {
            o->h = (o->h ^ p[i]) * 0x100000001b3ull;
            if (o->n + i < sizeof o->first) o->first[o->n + i] = p[i];
        }
        o->n += n;
        quiet--;
    }
};
struct Res {
    int rc = -1, extra = 0;
    Out o;
    bool operator==(const Res &r) const { return rc == r.rc && extra == r.extra && o.h == r.o.h && o.n == r.o.n; }
};
struct Worker {  // what one thread owns
    int id = 0;
    const TypeOps *t = nullptr;
    void *o[2] = {nullptr, nullptr};
    std::vector<Op> ops;
    std::vector<Res> res;
};
struct Shared { const TypeOps *t; void *p; bool same[MAXT]; };
struct Run {
    const NodeApi *api;
    std::vector<Worker> w;
    std::vector<Shared> sh;
    bool threads = false;
    std::string bad;  // a process-wide effect that was seen

    Res one(Worker &w, const Op &op) {
        Res r;
        const TypeOps *t = w.t;
        void *&x = w.o[op.a & 1], *&y = w.o[1 - (op.a & 1)];
        Shared *s = sh.empty() ? nullptr : &sh[op.b % sh.size()];
        if (op.kind >= K_SENC && op.kind <= K_SASSIGN && !s) { r.rc = -2; return r; }
        u8 root[32];
        int rc = 0;
        switch (op.kind) {
            case K_DECODE:
            case K_DAMAGED: r.rc = t->decode(x, op.data.data(), op.data.size()); if (r.rc == R_TRUE) r.extra = t->encode(x, Out::sink, &r.o); break;
            case K_ENCODE: r.rc = t->encode(x, Out::sink, &r.o); break;
            case K_ROOT: r.rc = t->root(x, root); Out::sink(&r.o, root, 32); break;
            case K_EQUAL: r.rc = t->equal(x, y, &r.extra); break;
            case K_ASSIGN: r.rc = t->assign(x, y); break;
            case K_CLONE: {
                void *c = t->clone(x, &rc);
                r.rc = rc;
                if (c) { r.extra = t->root(c, root); Out::sink(&r.o, root, 32); t->destroy(c); }
                break;
            }
            case K_YOUT: r.rc = t->yaml_out(x, Out::sink, &r.o); break;
            case K_YIN: r.rc = t->yaml_in(x, (const char *)op.data.data(), op.data.size()); if (r.rc == R_TRUE) r.extra = t->encode(x, Out::sink, &r.o); break;
            case K_HEX:
                if (t->hex_out) r.rc = t->hex_out(x, Out::sink, &r.o);
                if (t->hex_in && op.data.size()) { r.extra = t->hex_in(y, (const char *)op.data.data(), op.data.size()); t->encode(y, Out::sink, &r.o); }
                break;
            case K_PRINT: if (t->print) r.rc = t->print(x, Out::sink, &r.o); break;
            case K_TREE: r.rc = api->tree(op.data.data(), op.data.size(), op.a & 1, op.b, op.a >> 1 & 1, op.data.size() / 32, root); if (r.rc == R_TRUE) Out::sink(&r.o, root, 32); break;
            case K_POKE: r.rc = t->poke(x, op.b); break;
            case K_NEW: {
                t->destroy(x);
                x = t->create(&rc);
                r.rc = rc;
                if (x) { r.extra = t->root(x, root); Out::sink(&r.o, root, 32); }
                break;
            }
            case K_MOVE:  // the moved-from object may hold anything afterwards: give it a value again
                r.rc = t->move(x, y);
                t->destroy(y);
                y = t->create(&rc);
                break;
            case K_SENC: r.rc = s->t->encode(s->p, Out::sink, &r.o); break;
            case K_SROOT: r.rc = s->t->root(s->p, root); Out::sink(&r.o, root, 32); break;
            case K_SEQUAL: {
                const void *other = s->same[w.id] ? w.o[op.a & 1] : s->p;
                r.rc = s->t->equal(s->p, other, &r.extra);
                break;
            }
            case K_SCLONE: {
                void *c = s->t->clone(s->p, &rc);
                r.rc = rc;
                if (c) { r.extra = s->t->encode(c, Out::sink, &r.o); s->t->destroy(c); }
                break;
            }
            case K_SYOUT: r.rc = s->t->yaml_out(s->p, Out::sink, &r.o); break;
            case K_SHEX: if (s->t->hex_out) r.rc = s->t->hex_out(s->p, Out::sink, &r.o); break;
            case K_SPRINT: if (s->t->print) r.rc = s->t->print(s->p, Out::sink, &r.o); break;
            case K_SASSIGN: if (s->same[w.id]) r.rc = t->assign(x, s->p); break;
            case K_COUT: {
                quiet++;
                std::ios_base::fmtflags f = std::cout.flags();
                if (op.a & 1) std::cout << std::hex << std::uppercase; else std::cout << std::oct << std::showbase;
                std::cout << std::setfill(char('a' + op.b % 20)) << std::setprecision(int(2 + op.b % 7));
                auto f1 = std::cout.flags();
                auto c1 = std::cout.fill();
                auto p1 = std::cout.precision();
                auto s1 = std::cout.rdstate();
                for (int k = 0; k < 5 && threads; k++) { quiet--; hooks::entry(); rotate(self); quiet++; }
                if (std::cout.flags() != f1 || std::cout.fill() != c1 || std::cout.precision() != p1 || std::cout.width() || std::cout.rdstate() != s1)
                    bad = "the formatting state of std::cout changed while another thread was using it";
                std::cout.flags(f);
                std::cout << std::setfill(' ') << std::setprecision(6);
                quiet--;
                r.rc = 1;
                break;
            }
        }
        return r;
    }
    void work(Worker &w) {
        int rc = 0;
        w.o[0] = w.t->create(&rc);
        w.o[1] = w.t->create(&rc);
        for (auto &op : w.ops) {
            if (self) { self->kind = op.kind; self->in_op = true; }
            w.res.push_back(one(w, op));  // room was made before
            if (self) {
                quiet++;
                proc_check(self);
                quiet--;
                self->in_op = false;
                hooks::entry();
            }
        }
        for (auto &p : w.o) if (p) w.t->destroy(p);
    }
};
static Run *g_run = nullptr;
static void *thread_main(void *a) {
    T *t = (T *)a;
    static thread_local char alt[1 << 15];
    stack_t ss{};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, 0);
    fut_wait(&t->sem);
    t->started = true;
    quiet = 0;
    self = t;
    g_run->work(g_run->w[t->id]);
    self = nullptr;  // thread locals of the node are destroyed outside the schedule, one thread after the other
    return nullptr;
}
static void on_exit_of(void *a) {  // runs when the thread has returned from all its work
    T *t = (T *)a;
    t->done = true;
    int u = next_of(t->id);
    if (u >= 0) fut_post(&S.th[u].sem);
    else {
        bool stuck = false;
        for (size_t i = 0; i < S.N; i++) stuck |= !S.th[i].done;
        if (stuck) die("deadlock", "every thread waits for another one");
        fut_post(&S.main_sem);
    }
}
static pthread_key_t exit_key;
static void *thread_entry(void *a) {
    pthread_setspecific(exit_key, a);  // destroyed after the thread's C++ thread locals
    thread_main(a);
    return nullptr;
}

struct TWorld : World {
    model::Schema sch{false};
    std::stringbuf coutbuf;
    TWorld() {
        const char *so = getenv("SIM_NODE_MINIMAL");
        FILE *f = so ? fopen(so, "rb") : nullptr;
        if (!f) { fprintf(stderr, "no module\n"); _exit(4); }
        fseek(f, 0, SEEK_END);
        image.resize(ftell(f));
        rewind(f);
        if (fread(image.data(), 1, image.size(), f) != image.size()) _exit(4);
        fclose(f);
        for (size_t k = 0; k <= MAXT; k++) arena[k].map(k);
        for (size_t k = 0; k < MAXT; k++) {
            u64 lo = STACK0 + k * (STACK + 65536);
            if (mmap((void *)lo, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != (void *)lo) _exit(4);
            S.th[k].stk_lo = lo;
            S.th[k].stk_hi = lo + STACK;
        }
        S.fw.assign(1 << 14, 0);
        pthread_key_create(&exit_key, on_exit_of);
    }
    void setup(const std::string &) override {
        dlopen("libyaml-cpp.so.0.8", RTLD_NOW | RTLD_GLOBAL);
        std::cout.rdbuf(&coutbuf);
        model::zero(1);
        // one CPU: a hand-over from thread to thread is then cheapest
        cpu_set_t all, one;
        if (!sched_getaffinity(0, sizeof all, &all)) {
            int n = CPU_COUNT(&all), k = getpid() % (n ? n : 1);
            CPU_ZERO(&one);
            for (int i = 0; i < CPU_SETSIZE; i++)
                if (CPU_ISSET(i, &all) && k-- == 0) CPU_SET(i, &one);
            sched_setaffinity(0, sizeof one, &one);
        }
        // lazily made things of the C++ library and libyaml-cpp exist before the first run; what goes wrong here is reported
        // under the seed of the warming plan, and comes again whenever the world is set up
        warming = g_in_run = true;
        struct itimerval it;
        getitimer(ITIMER_VIRTUAL, &it);
        arm_watchdog(60);
        u64 seed0 = g_cur_seed;
        for (u64 s = 0; s < model::NTYPES; s++) {
            Plan p = gen("C07", 1000 + s, false);
            p.knob["t0"] = s;
            Ctx c;
            g_cur_seed = p.seed;
            reference(p, c, true);
            if (s % 8 == 0) execute(p, c, nullptr);
        }
        // the same for what only unusual or broken text reaches: libyaml-cpp makes its patterns when they are first needed
        {
            static const char *const odd[] = {"", "~", "a", "- a\n- b\n- - c\n  - d\n", "a: b\nc:\n  d: e\n", "? a\n: b\n", "? [a]\n: {b: c}\n", "[a, b: c, \"d\": e, 'f': g, ? h : i]", "{a: b, \"c\":d, ? e : f, g}", "'it''s'",
                "\"\\x41\\u0041\\U00000041\\n\\t\\\\\\\" \\\n  b\"", "# c\na: b # d\n", "&x a", "- &x a\n- *x\n", "*y", "!!str a", "!<tag:yaml.org,2002:str> a", "! a", "!t a", "!h!t a", "%YAML 1.2\n---\na\n...\n", "%TAG !e! tag:e,2000:\n---\n!e!x a\n", "%FOO\n--- a",
                "--- a\n--- b\n", "|\n a\n  b\n\n c\n", "|+2\n   a\n\n", "|-\n a\n", ">\n a\n b\n\n  c\n d\n", ">2-\n  a\n", "a:\tb\n", "\xef\xbb\xbf" "a: b", "a: b\r\nc: d\r\n", "\"a\n  b\n\n c\"", "'a\n  b'", "a\n b\n c\n", "[a", "{a", "\"a", "'a", "a: b: c", "- a\nb", "]", "}", ",", "\"\\q\"", "\"\\x4\"", "@", "`", "%", "|9x",
                "&", "*", "!<", "&a &b c", "yes", "true", "TRUE", "nope", "1", "-1", "0x10", "0b1", "010", "1e3", ".inf", "-.inf", ".nan", "18446744073709551616", "- : -", "? ", ": a", "[? a, : b]", "{? a, : b}", "{: a}", "[[[[[[]]]]]]", "- |\n a\n- >\n b\n", "a:\n- b\n- c\nd: e\n", "<<: {a: b}", "\x01", "\xff\xfe" "a", "\xc3\xa9: \xe2\x82\xac", "a #b", "a#b", "[a #b\n]", "'0x00", "-\n", "- \n -\n"};
            Rng r(5);
            Node nd;
            nd.start();
            auto feed = [&](const TypeOps *t, const char *x, size_t n) {
                int rc;
                void *o = t->create(&rc);
                if (t->yaml_in(o, x, n) == R_TRUE) { Out z; t->yaml_out(o, Out::sink, &z); }
                if (t->hex_in) t->hex_in(o, x, n);
                t->destroy(o);
            };
            static const char *const some[] = {"U", "Checkpoint", "L(U,0)", "Attestation", "Solo", "BL0", "AttesterSlashing"};
            for (auto *nm : some) {
                const TypeOps *t = nd.ops(nm);
                if (!t) continue;
                for (auto *x : odd) {
                    feed(t, x, strlen(x));
                    for (int k = 0; k < 12; k++) {
                        std::string y = x;
                        for (u64 m = r.range(1, 3); m--;) y.insert(r.below(y.size() + 1), 1, " \n:-[]{}\"'#&*!|>%,?0xa\\"[r.below(23)]);
                        feed(t, y.data(), y.size());
                    }
                }
            }
            nd.stop();
        }
        setitimer(ITIMER_VIRTUAL, &it, nullptr);
        g_cur_seed = seed0;
        warming = g_in_run = false;
        arenas_on = true;
    }
    Plan gen(const std::string &prop, u64 seed, bool thorough) override {
        Plan p;
        p.prop = prop;
        p.seed = seed;
        Rng r(seed);
        u64 N = r.chance(1, 2) ? 2 : r.range(2, MAXT), nsh = r.chance(1, 4) ? 0 : r.range(1, 2);
        p.knob["threads"] = N;
        p.knob["shared"] = nsh;
        p.knob["policy"] = 1;
        p.knob["pseed"] = r.next() >> 1;
        p.knob["gap"] = r.pick<u64>({30, 300, 3000, 3000, 30000});
        p.knob["hot"] = r.below(3);
        p.knob["first"] = r.below(N);
        long budget = r.chance(1, 12) ? 4000 : r.pick<u64>({40, 200, 400, 700});
        auto type = [&] {
            u64 t = r.chance(1, 2) ? r.below(model::NAMED) : model::NAMED + r.below(model::NTYPES - model::NAMED);
            if (t == model::BEACON_STATE && !r.chance(1, 8)) t = r.below(model::BEACON_STATE);
            return t;
        };
        bool lengthy = r.chance(1, thorough ? 20 : 40);  // many small operations in one life of the process
        if (lengthy) budget = 40;
        u64 base = type();
        bool mixed = r.chance(1, 3);
        for (u64 t = 0; t < N; t++) p.knob["t" + std::to_string(t)] = mixed ? type() : base;
        for (u64 s = 0; s < nsh; s++) {
            p.knob["s" + std::to_string(s)] = mixed && r.chance(1, 2) ? type() : base;
            p.add("shr", {s, r.next(), (u64)budget});
        }
        // swarm: a few kinds per run
        std::vector<u64> kinds;
        u64 nk = r.range(1, 5);
        for (u64 k = 0; k < nk; k++) kinds.push_back(nsh && r.chance(1, 2) ? r.range(K_SENC, K_SASSIGN) : r.below(K_SENC));
        bool cout_user = r.chance(1, 6);
        for (u64 t = 0; t < N; t++) {
            u64 n = lengthy ? r.range(30, 90) : r.range(1, thorough ? 10 : 6);
            if (r.chance(2, 3)) p.add("op", {t, K_DECODE, r.below(2), r.next(), (u64)budget});
            for (u64 i = 0; i < n; i++) {
                u64 k = kinds[r.below(kinds.size())];
                if (r.chance(1, 8)) k = nsh && r.chance(1, 2) ? r.range(K_SENC, K_SASSIGN) : r.below(K_SENC);
                if (cout_user && t == 0 && r.chance(1, 2)) k = K_COUT;
                p.add("op", {t, k, r.below(4), r.next(), (u64)budget});
            }
        }
        return p;
    }
    const char *tname(const Plan &p, const char *k, u64 i) { return model::TYPE_NAMES[p.k((std::string(k) + std::to_string(i)).c_str()) % model::NTYPES]; }
    void prepare(const Plan &p, const Node &nd, Run &run) {
        size_t N = std::min<u64>(std::max<u64>(1, p.k("threads", 2)), MAXT), nsh = std::min<u64>(p.k("shared"), 2);
        run.api = nd.api;
        run.w.resize(N);
        for (size_t t = 0; t < N; t++) { run.w[t].id = int(t); run.w[t].t = nd.ops(tname(p, "t", t)); }
        for (size_t s = 0; s < nsh; s++) {
            Shared x{nd.ops(tname(p, "s", s)), nullptr, {}};
            for (size_t t = 0; t < N; t++) x.same[t] = x.t == run.w[t].t;
            int rc;
            main_in_node = true;
            x.p = x.t->create(&rc);
            main_in_node = false;
            run.sh.push_back(x);
        }
        std::map<std::pair<u64, u64>, Bytes> texts;
        for (auto &st : p.steps) {
            if (st.op == "shr" && st.arg(0) < nsh) {
                const model::Ty *ty = sch.get(run.sh[st.arg(0)].t->name);
                Rng r(st.arg(1));
                long b = long(st.arg(2));
                Bytes e = model::enc(ty, model::gen(ty, r, b));
                main_in_node = true;
                run.sh[st.arg(0)].t->decode(run.sh[st.arg(0)].p, e.data(), e.size());
                main_in_node = false;
            }
            if (st.op != "op") continue;
            size_t t = st.arg(0) % N;
            Op op{int(st.arg(1) % K_N), st.arg(2), st.arg(3), {}};
            const model::Ty *ty = sch.get(run.w[t].t->name);
            Rng r(st.arg(3));
            long b = long(st.arg(4));
            if (op.kind == K_DECODE) op.data = model::enc(ty, model::gen(ty, r, b));
            if (op.kind == K_DAMAGED) {
                Val v = model::gen(ty, r, b);
                long b2 = 100;
                const char *what;
                Bytes other = model::enc(ty, model::gen(ty, r, b2));
                op.data = model::damage(ty, v, r.below(model::F_N), r.next(), other, &what);
            }
            if (op.kind == K_YIN || op.kind == K_HEX) {  // the node's own text of a value, written before the threads start
                Bytes e = model::enc(ty, model::gen(ty, r, b));
                int rc;
                main_in_node = true;
                Bytes txt;
                {
                    void *o = run.w[t].t->create(&rc);
                    struct L { static void put(void *x, const u8 *q, size_t n) { bool m = main_in_node; main_in_node = false; ((Bytes *)x)->insert(((Bytes *)x)->end(), q, q + n); main_in_node = m; } };
                    if (run.w[t].t->decode(o, e.data(), e.size()) == R_TRUE) {
                        if (op.kind == K_YIN) run.w[t].t->yaml_out(o, L::put, &txt);
                        else if (run.w[t].t->hex_out) run.w[t].t->hex_out(o, L::put, &txt);
                    }
                    run.w[t].t->destroy(o);
                }
                main_in_node = false;
                if (r.chance(1, 3) && txt.size()) {  // text that was cut off, overwritten, lengthened or replaced: refusing it is an operation as well
                    switch (r.below(5)) {
                    case 0: txt.resize(r.below(txt.size())); break;
                    case 1: txt[r.below(txt.size())] = "gz:-[]{}\n\"'0xF"[r.below(15)]; break;
                    case 2: {  // more digits in a hexadecimal string
                        size_t i = txt.size() > 2 ? r.below(txt.size() - 1) : 0;
                        while (i + 1 < txt.size() && !(txt[i] == '0' && txt[i + 1] == 'x')) i++;
                        if (i + 2 <= txt.size()) { size_t m = r.chance(1, 2) ? 2 : r.range(1, 80); txt.insert(txt.begin() + long(i) + 2, m, '7'); }
                        break;
                    }
                    case 3: {  // a scalar that is something else
                        static const char *const sc[] = {"-1", "1e400", "yes", "~", "[]", "99999999999999999999", "0x", "word"};
                        size_t i = r.below(txt.size());
                        while (i < txt.size() && txt[i] != ':') i++;
                        size_t j = i;
                        while (j < txt.size() && txt[j] != '\n') j++;
                        if (i < txt.size()) {
                            std::string y = std::string(": ") + sc[r.below(8)];
                            txt.erase(txt.begin() + long(i), txt.begin() + long(j));
                            txt.insert(txt.begin() + long(i), y.begin(), y.end());
                        } else { const char *y = sc[r.below(8)]; txt.assign((const u8 *)y, (const u8 *)y + strlen(y)); }
                        break;
                    }
                    default: {
                        size_t i = r.below(txt.size()), n = r.range(1, 40);
                        txt.erase(txt.begin() + long(i), txt.begin() + long(std::min(txt.size(), i + n)));
                    }
                    }
                    op.a |= 1ull << 40;
                }
                op.data = txt;
            }
            if (op.kind == K_TREE) {
                op.data.resize(32 * r.range(1, r.chance(1, 3) ? 40 : 6));
                r.fill(op.data.data(), op.data.size());
                u64 n = op.data.size() / 32;
                op.b = r.chance(1, 3) ? 0 : r.chance(1, 2) ? n + r.below(8) : n << r.below(50);
            }
            run.w[t].ops.push_back(op);
        }
        for (auto &w : run.w) w.res.reserve(w.ops.size());
        // text of the reference and of the run must not depend on earlier first uses in this node: nothing was hashed here
    }
    void finish(Run &run) {
        main_in_node = true;
        for (auto &s : run.sh) s.t->destroy(s.p);
        main_in_node = false;
    }
    std::vector<std::vector<Res>> reference(const Plan &p, Ctx &c, bool all = false) {
        for (auto &a : arena) a.reset();
        Node nd;
        Run run;
        g_phase = "the sequential reference";
        nd.start();
        prepare(p, nd, run);
        if (all)
            for (auto &w : run.w)
                for (int k = 0; k < K_N; k++) w.ops.push_back({k, 0, 1, Bytes(64, 7)});
        std::vector<std::vector<Res>> out;
        for (auto &w : run.w) {
            // results belong to the simulator (room was made); what the node allocates goes to the main arena
            w.res.reserve(w.ops.size());
            main_in_node = true;
            run.work(w);
            main_in_node = false;
            out.push_back(w.res);
        }
        finish(run);
        nd.stop();
        return out;
    }
    static std::string show(const Res &r) {
        static const char *const n[] = {"false", "success", "out of memory", "an exception", "a foreign exception"};
        return std::string(r.rc >= 0 && r.rc < 5 ? n[r.rc] : "nothing") + " " + std::to_string(r.extra) + " " + hex(r.o.first, std::min<size_t>(r.o.n, sizeof r.o.first)) + " (" + std::to_string(r.o.n) + " bytes)";
    }
    void exec(const Plan &p, Ctx &c) override { execute(p, c, nullptr); }
    void execute(const Plan &p, Ctx &c, Sched::Rec *rec) {
        for (auto &a : arena) a.reset();
        quiet = 0;
        Node nd;
        Run run;
        g_phase = "start-up of a node";
        Proc::canon();
        proc0.take();
        nd.start();
        prepare(p, nd, run);
        size_t N = run.w.size();
        auto ref_shared = shared_state(run, p);
        // the schedule
        S.N = N;
        S.explicit_ = p.k("policy") == 0;
        S.r = Rng(p.k("pseed"));
        S.K = std::max<u64>(1, p.k("gap", 300));
        static const u64 hn[] = {1, 1, 3}, hd[] = {2, 4, 4};
        S.hotnum = hn[p.k("hot") % 3];
        S.hotden = hd[p.k("hot") % 3];
        S.total = S.switches = S.inside = S.hot = S.forced = S.allocs = S.blocks = S.atomics = 0;
        S.sw_hash = 1;
        S.budget = 60000000;
        S.c = &c;
        S.rec = rec;
        S.main_sem = 0;
        if (S.fwn) { std::fill(S.fw.begin(), S.fw.end(), 0); S.fwn = 0; }
        for (auto &v : S.sw) v.clear();
        for (auto &st : p.steps)
            if (st.op == "sw" && st.arg(0) < N) S.sw[st.arg(0)].push_back({st.arg(0), st.arg(1), st.arg(2)});
        for (auto &v : S.sw) std::stable_sort(v.begin(), v.end(), [](const Sw &a, const Sw &b) { return a.n < b.n; });
        S.countdown = S.explicit_ ? 1 << 30 : gap();
        g_run = &run;
        run.threads = true;
        coutbuf.str("");
        if (const char *w = proc0.changed(false)) c.fail("process-state-changed", std::string(w) + " was changed by preparing the objects, which stays so for every thread");
        g_phase = "concurrent calls";
        for (size_t t = 0; t < N; t++) {
            T &x = S.th[t];
            x.id = int(t);
            x.sem = 0;
            x.n = 0;
            x.done = x.in_op = x.started = false;
            x.blocked = nullptr;
            x.kind = -1;
            x.spin = 0;
            S.swi[t] = 0;
            next_stop(&x);
            pthread_attr_t at;
            pthread_attr_init(&at);
            pthread_attr_setstack(&at, (void *)x.stk_lo, STACK);
            if (pthread_create(&x.th, &at, thread_entry, &x)) { fprintf(stderr, "pthread_create\n"); _exit(4); }
            pthread_attr_destroy(&at);
        }
        fut_post(&S.th[p.k("first") % N].sem);
        fut_wait(&S.main_sem);
        for (size_t t = 0; t < N; t++) pthread_join(S.th[t].th, nullptr);
        S.c = nullptr;
        S.rec = nullptr;
        g_run = nullptr;
        g_phase = "checks after the threads";
        if (run.bad.size()) c.fail("stream-state-disturbed", run.bad);
        if (const char *w = proc0.changed(false)) c.fail("process-state-changed", std::string(w) + " is not what it was before the threads ran");
        if (!c.r.bad && shared_state(run, p) != ref_shared) c.fail("shared-object-changed", "an object that threads only read is not what it was before");
        finish(run);
        std::vector<std::vector<Res>> got;
        for (auto &w : run.w) got.push_back(w.res);
        nd.stop();
        Proc::canon();
        auto want = reference(p, c);
        if (const char *w = proc0.changed(false)) c.fail("process-state-changed", std::string(w) + " is not what it was before the calls, made one after another");
        Proc::canon();
        u64 nops = 0;
        for (size_t t = 0; t < N; t++)
            for (size_t i = 0; i < want[t].size(); i++) {
                nops++;
                const Op &op = run.w[t].ops[i];
                c.log.ev(7, t, got[t][i].rc, got[t][i].o.h);
                if (!c.r.bad && !(got[t][i] == want[t][i]))
                    c.fail("wrong-result", std::string(KN[op.kind]) + " (operation " + std::to_string(i) + " of thread " + std::to_string(t) + ", a " + tname(p, "t", t) + ") gave " + show(got[t][i]) + " beside other threads and " + show(want[t][i]) + " alone");
                c.stat((std::string("probe_op_") + (op.kind >= K_SENC && op.kind < K_COUT ? "on_shared_object" : op.kind == K_COUT ? "cout_user" : "on_own_object")).c_str());
                if (op.kind == K_DAMAGED) c.stat("fault_damaged_payload");
                if ((op.kind == K_YIN || op.kind == K_HEX) && op.a >> 40 & 1) c.stat("fault_damaged_text");
            }
        c.log.ev(8, S.switches, S.sw_hash, S.total);
        c.log.n += S.switches;
        c.stat("fault_preemption", S.switches - S.forced - S.blocks > 1ull << 60 ? 0 : S.switches - S.forced - S.blocks);
        c.stat("fault_preemption_inside_two_operations", S.inside);
        c.stat("probe_access_points", S.total);
        if (S.hot) c.stat("probe_shared_write_points", S.hot);
        if (S.blocks) c.stat("probe_waited_for_lock", S.blocks);
        if (S.forced) c.stat("probe_forced_rotation", S.forced);
        if (run.sh.empty()) c.stat("probe_first_uses_race");
        if (S.inside) c.r.nontrivial = true;
    }
    std::vector<std::vector<u8>> shared_state(Run &run, const Plan &p) {  // what the shared objects encode to
        std::vector<std::vector<u8>> v;
        for (auto &s : run.sh) {
            struct L { static void put(void *x, const u8 *q, size_t n) { bool m = main_in_node; main_in_node = false; ((Bytes *)x)->insert(((Bytes *)x)->end(), q, q + n); main_in_node = m; } };
            Bytes b;
            main_in_node = true;
            s.t->encode(s.p, L::put, &b);
            main_in_node = false;
            v.push_back(b);
        }
        return v;
    }
};

int main(int argc, char **argv) {
    no_aslr(argv);
    TWorld w;
    if (argc >= 5 && !strcmp(argv[1], "plan")) {
        // run the seed in a child that records its schedule, and write the schedule out in full
        Plan p = w.gen(argv[2], strtoull(argv[3], 0, 10), atoi(argv[4]));
        auto *rec = (Sched::Rec *)mmap(nullptr, sizeof(Sched::Rec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        auto child = [&](const Plan &q, Sched::Rec *rc) {
            pid_t pid = fork();
            if (!pid) {
                int nul = open("/dev/null", O_WRONLY);
                dup2(nul, 1);
                install_crash_handlers(true);
                w.setup(q.prop);
                Ctx c;
                g_in_run = true;
                arm_watchdog(20);
                w.execute(q, c, rc);
                _exit(c.r.bad ? 3 : 0);
            }
            int st = 0;
            waitpid(pid, &st, 0);
            return WIFEXITED(st) ? WEXITSTATUS(st) : 99;
        };
        Plan q = p;
        if (child(p, rec) && rec->n < 60000) {
            q.knob["policy"] = 0;
            for (u32 i = 0; i < rec->n; i++) q.add("sw", {rec->s[i].t, rec->s[i].n, rec->s[i].u});
            if (!child(q, nullptr)) q = p;
        }
        fputs(plan_text(q).c_str(), stdout);
        fflush(stdout);
        _exit(0);
    }
    return worker_main(argc, argv, w, true);
}
