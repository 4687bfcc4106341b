// World 1: the hashing kernels under a scheduler that decides, at instruction granularity, which caller
// thread runs, where signals land and when neighbours change memory (C01, C02).
//
// Caller threads are real OS threads (thread locals behave) but exactly one runs at any moment: the baton
// is passed only at points the plan chose.  Points are breakpoints planted in the kernel's text; the
// handler runs on the interrupted stack, exactly like a signal, and performs the planned action.
#include <cpuid.h>
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <ucontext.h>

#include "common.hpp"
#include "emu.hpp"
#include "sha256ref.hpp"

using namespace sim;
using u16 = uint16_t;

namespace {
typedef void (*hash_fn)(const void *, unsigned char *, const unsigned char *, unsigned long);
struct Mod {
    void *(*make)(int);
    void (*free_)(void *);
    hash_fn hash;
    int (*impl)();
    u64 base = 0, tlo = 0, thi = 0;
    std::vector<std::pair<u64, u64>> wr;  // writable ranges
    std::vector<Bytes> snap;
    std::map<int, std::vector<u64>> order;  // per implementation: instruction addresses (module relative), in order of first execution
    std::vector<int> impls;
} M;

// ---- the checked call: garbage in every register the callee may rely on by mistake ----------------
struct CallCtx {
    u64 fn, a0, a1, a2, a3;       // 0..32
    u64 in[6];                    // 40: rbx rbp r12 r13 r14 r15
    u64 out[6];                   // 88
    u64 rsp_in, rsp_out;          // 136,144
    u64 fl_in, fl_out;            // 152,160
    u64 vec;                      // 168 pointer to 512 bytes of vector garbage
    u32 mx_in, mx_out;            // 176,180
    u16 cw_in, cw_out, tag, pad;  // 184,186,188
    u64 garbage;                  // 192
    u64 dirty;                    // 200 bytes of stack to dirty (multiple of 8)
    u64 saved_rsp;                // 208
    u8 env[28];                   // 216
};
}  // namespace
extern "C" {
__thread CallCtx *g_cc;
void call_checked(CallCtx *);
}
asm(R"(
.text
.globl call_checked
.type call_checked,@function
call_checked:
    push %rbx
    push %rbp
    push %r12
    push %r13
    push %r14
    push %r15
    sub $24, %rsp
    mov %rdi, %fs:g_cc@tpoff
    mov %rsp, 208(%rdi)
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    ldmxcsr 176(%rdi)
    fldcw 184(%rdi)
    # dirty the stack below
    mov 200(%rdi), %rcx
    mov 192(%rdi), %rax
1:  test %rcx, %rcx
    jz 2f
    neg %rcx
    mov %rax, (%rsp,%rcx)
    neg %rcx
    rol $7, %rax
    add $0x1234567, %rax
    sub $8, %rcx
    jmp 1b
2:  mov 168(%rdi), %rax
    vmovdqu (%rax), %ymm0
    vmovdqu 32(%rax), %ymm1
    vmovdqu 64(%rax), %ymm2
    vmovdqu 96(%rax), %ymm3
    vmovdqu 128(%rax), %ymm4
    vmovdqu 160(%rax), %ymm5
    vmovdqu 192(%rax), %ymm6
    vmovdqu 224(%rax), %ymm7
    vmovdqu 256(%rax), %ymm8
    vmovdqu 288(%rax), %ymm9
    vmovdqu 320(%rax), %ymm10
    vmovdqu 352(%rax), %ymm11
    vmovdqu 384(%rax), %ymm12
    vmovdqu 416(%rax), %ymm13
    vmovdqu 448(%rax), %ymm14
    vmovdqu 480(%rax), %ymm15
    mov 40(%rdi), %rbx
    mov 48(%rdi), %rbp
    mov 56(%rdi), %r12
    mov 64(%rdi), %r13
    mov 72(%rdi), %r14
    mov 80(%rdi), %r15
    mov %rsp, 136(%rdi)
    mov (%rdi), %r11
    mov 16(%rdi), %rsi
    mov 24(%rdi), %rdx
    mov 32(%rdi), %rcx
    mov 192(%rdi), %rax
    mov %rax, %r8
    not %r8
    mov %rax, %r9
    bswap %r9
    lea 77(%rax), %r10
    push 152(%rdi)
    popfq
    mov 8(%rdi), %rdi
    call *%r11
    mov %fs:g_cc@tpoff, %rdi
    mov %rsp, 144(%rdi)
    mov 208(%rdi), %rsp
    pushfq
    cld
    pop %rax
    mov %rax, 160(%rdi)
    mov %rbx, 88(%rdi)
    mov %rbp, 96(%rdi)
    mov %r12, 104(%rdi)
    mov %r13, 112(%rdi)
    mov %r14, 120(%rdi)
    mov %r15, 128(%rdi)
    stmxcsr 180(%rdi)
    fnstcw 186(%rdi)
    fnstenv 216(%rdi)
    mov 224(%rdi), %ax
    mov %ax, 188(%rdi)
    emms
    vzeroupper
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    add $24, %rsp
    pop %r15
    pop %r14
    pop %r13
    pop %r12
    pop %rbp
    pop %rbx
    ret
)");

namespace {
const char *IMPLN(int i) { return i == 0 ? "default" : i == 1 ? "SSE" : i == 2 ? "AVX" : i == 4 ? "AVX2" : i == 8 ? "SHA" : "?"; }

// ---- memory the calls work on ----------------------------------------------------------------------
constexpr size_t PG = 4096, ARENA = 24 * PG;
constexpr u64 MAXN = 1100, HUGE_N = 65600;  // the latter only in private regions
constexpr int MAXT = 4;
struct Arena {
    u8 *p = nullptr;  // len bytes, unmapped pages on both sides
    size_t len = ARENA;
    size_t lo = 0, hi = 0;  // the part in use by the current call
    Bytes shadow;           // what p[lo, hi) must contain
    void init(size_t n = ARENA) {
        len = n;
        u8 *m = (u8 *)mmap(0, len + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        p = m + PG;
        mprotect(p, len, PROT_READ | PROT_WRITE);
    }
    void rw() { mprotect(p, len, PROT_READ | PROT_WRITE); }
    void ro() { mprotect(p, len, PROT_READ); }
};
Arena A_in[MAXT], A_out[MAXT], N_in, N_out, SHIN, SLAB;

struct Point {
    u64 addr = 0;
    u64 hit = 1, seen = 0, act = 0, arg = 0, salt = 0;
    bool done = false;
    u64 id = 0;
};
struct Call {
    int impl = 0;
    u64 n = 0, lin = 0, lout = 0, salt = 0;
    std::vector<Point> pts;
    u8 *in = nullptr, *out = nullptr;
    bool ran = false;
};
struct Thr {
    pthread_t t;
    sem_t go;
    std::vector<Call> calls;
    bool finished = true, started = false;
    int cur = -1;          // call in progress
    int depth = 0;         // >0: inside a nested call made by a simulated signal handler
    u64 stepping = 0;      // address whose original instruction is being single stepped
    int idx = 0;
};
Thr T[MAXT];
int NT = 0;
sem_t all_done;
Ctx *C = nullptr;
const Plan *P = nullptr;
__thread Thr *me = nullptr;
u64 sched_ctr = 0;

std::map<u64, u8> planted;  // absolute address -> original byte
void plant(u64 a) {
    if (planted.count(a)) return;
    planted[a] = *(u8 *)a;
    *(u8 *)a = 0xcc;
}
void unplant_all() {
    for (auto &k : planted) *(u8 *)k.first = k.second;
    planted.clear();
}

// tracing mode (once per process, before any run): record executed instruction addresses
bool tracing = false;
std::vector<u64> *trace_order = nullptr;
std::unordered_set<u64> trace_seen;

void vfail(const std::string &cls, const std::string &m) { C->fail(cls, m); }

std::string describe(u64 a) {
    auto in = [&](const char *nm, Arena &ar, u8 *b, size_t len) -> std::string {
        if (a < (u64)ar.p - PG || a >= (u64)ar.p + ar.len + PG) return "";
        long d0 = (long)(a - (u64)b), d1 = (long)(a - (u64)(b + len));
        if (d0 < 0) return std::string(nm) + ", " + std::to_string(-d0) + " bytes before its start";
        if (d1 >= 0) return std::string(nm) + ", " + std::to_string(d1) + " bytes past its end";
        return std::string(nm) + ", inside the buffer at offset " + std::to_string(d0);
    };
    if (me && me->cur >= 0) {
        auto &c = me->calls[me->cur];
        std::string s = in("the input buffer", A_in[me->idx], c.in, c.n * 64);
        if (s.empty()) s = in("the output buffer", A_out[me->idx], c.out, c.n * 32);
        if (!s.empty()) return s;
    }
    if (a >= (u64)N_in.p - PG && a < (u64)N_in.p + ARENA + PG) return "the nested call's input region";
    if (a >= (u64)N_out.p - PG && a < (u64)N_out.p + ARENA + PG) return "the nested call's output region";
    if (a >= (u64)SHIN.p - PG && a < (u64)SHIN.p + ARENA + PG) return "the shared read-only input region";
    if (a >= (u64)SLAB.p - PG && a < (u64)SLAB.p + ARENA + PG) return "the shared output region";
    return "an unrelated address";
}

// Most calls of a run share one Hasher per implementation, as the users of HashTree do; the others make their own.
std::map<int, void *> shared_hasher;

bool do_call(int impl, u8 *out, const u8 *in, u64 n, u64 salt, const char *who) {
    alignas(32) u8 vec[512];
    Rng r(salt ^ 0xabcdef);
    r.fill(vec, sizeof vec);
    void *own = r.chance(1, 3) ? M.make(impl) : nullptr, *h = own ? own : shared_hasher[impl];
    CallCtx cc{};
    cc.fn = (u64)M.hash;
    cc.a0 = (u64)h;
    cc.a1 = (u64)out;
    cc.a2 = (u64)in;
    cc.a3 = n;
    for (auto &x : cc.in) x = r.next();
    cc.garbage = r.next();
    cc.vec = (u64)vec;
    cc.mx_in = 0x1f80 | (u32)(r.below(4) << 13) | (r.chance(1, 4) ? 0x8040 : 0);
    cc.cw_in = 0x037f & ~0x0c00;
    cc.cw_in |= (u16)(r.below(4) << 10);
    cc.fl_in = 0x202 | (r.next() & 0x8d5);  // arithmetic flags arbitrary, DF clear as the ABI requires
    cc.dirty = 6144;
    CallCtx *save = g_cc;
    call_checked(&cc);
    g_cc = save;
    if (own) M.free_(own);
    std::string w = std::string(who) + " (" + IMPLN(impl) + ", " + std::to_string(n) + " blocks)";
    static const char *rn[] = {"rbx", "rbp", "r12", "r13", "r14", "r15"};
    for (int i = 0; i < 6; i++)
        if (cc.in[i] != cc.out[i]) vfail("context-register", w + ": callee-saved register " + rn[i] + " not preserved");
    if (cc.rsp_in != cc.rsp_out) vfail("context-stack", w + ": stack pointer not preserved");
    if (cc.fl_out & 0x400) vfail("context-flag", w + ": direction flag left set");
    if ((cc.mx_out & 0xffc0) != (cc.mx_in & 0xffc0)) vfail("context-mxcsr", w + ": SSE control state changed");
    if (cc.cw_in != cc.cw_out) vfail("context-fcw", w + ": x87 control word changed");
    if (cc.tag != 0xffff) vfail("context-x87", w + ": x87/MMX register stack left in use");
    return true;
}

void check_digests(const u8 *out, const u8 *in, u64 n, int impl, const char *who) {
    for (u64 i = 0; i < n; i++) {
        u8 d[32];
        ref::Sha256::hash64(d, in + 64 * i);
        if (memcmp(d, out + 32 * i, 32)) {
            vfail("wrong-digest", std::string(who) + ": " + IMPLN(impl) + ", batch of " + std::to_string(n) + " blocks, block " + std::to_string(i) + ": got " + hex(out + 32 * i, 32) +
                                      " expected " + hex(d, 32));
            return;
        }
    }
}

// Nested call from a simulated signal handler, on the interrupted stack.
void nested(u64 arg, u64 salt) {
    int impl = M.impls[arg % M.impls.size()];
    Rng r(salt);
    u64 n = r.below(6);
    u8 *in = N_in.p + ARENA - 64 * n, *out = N_out.p + ARENA - 32 * n;
    Bytes copy(64 * n);
    r.fill(copy.data(), copy.size());
    // Several nested handlers can be in progress at once (one per thread), so the buffers are per depth of use.
    u8 lin[64 * 6], lout[32 * 6];
    bool local = r.chance(1, 2);
    if (local) {
        in = lin;
        out = lout;
    }
    memcpy(in, copy.data(), copy.size());
    me->depth++;
    do_call(impl, out, in, n, salt, "call from a signal handler");
    me->depth--;
    check_digests(out, copy.data(), n, impl, "call from a signal handler");
    C->log.b(out, 32 * n);
}

// A batch of gigabytes: the same few pages of input and output, mapped over and over. 514 and 257 pages, so that no power
// of two leads from one place to another that looks the same.
void vast(int impl, u64 n, u64 salt) {
    const u64 ip = 514, op = 257, per = ip * PG / 64;
    auto spread = [](int fd, u64 pages, u64 bytes) {
        u64 len = (bytes + PG - 1) & ~(PG - 1);
        u8 *m = (u8 *)mmap(0, len + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        for (u64 o = 0; o < len; o += pages * PG)
            if (mmap(m + PG + o, std::min(pages * PG, len - o), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) _exit(2);
        return m;
    };
    int fi = memfd_create("in", 0), fo = memfd_create("out", 0);
    if (fi < 0 || fo < 0 || ftruncate(fi, ip * PG) || ftruncate(fo, op * PG)) _exit(2);
    u64 ilen = (n * 64 + PG - 1) & ~(PG - 1), olen = (n * 32 + PG - 1) & ~(PG - 1);
    u8 *mi = spread(fi, ip, ilen), *mo = spread(fo, op, olen);
    Bytes in(ip * PG), want(op * PG);
    Rng r(salt);
    r.fill(in.data(), in.size());
    memcpy(mi + PG, in.data(), in.size());
    memset(mo + PG, 0x5e, want.size());
    for (u64 i = 0; i < per; i++) ref::Sha256::hash64(want.data() + 32 * i, in.data() + 64 * i);
    do_call(impl, mo + PG, mi + PG, n, salt, "vast batch");
    if (memcmp(want.data(), mo + PG, want.size())) vfail("wrong-digest", std::string("vast batch: ") + IMPLN(impl) + ", batch of " + std::to_string(n) + " blocks: a digest is wrong, missing or out of place");
    if (memcmp(in.data(), mi + PG, in.size())) vfail("write-input", "the input of a vast batch changed");
    munmap(mi, ilen + 2 * PG);
    munmap(mo, olen + 2 * PG);
    close(fi);
    close(fo);
    C->stat("probe_vast_batch");
    C->log.ev(9, n, impl);
}

void handoff(int to) {
    Thr *from = me;
    C->log.ev(3, from->idx, to);
    sem_post(&T[to].go);
    while (sem_wait(&from->go)) {}
}

int pick_other(u64 salt, int self) {
    int c[MAXT], k = 0;
    for (int i = 0; i < NT; i++)
        if (i != self && !T[i].finished) c[k++] = i;
    return k ? c[salt % k] : -1;
}

void neighbour(Call &c, u64 salt) {
    Rng r(salt);
    Arena &o = A_out[me->idx];
    Arena &i = A_in[me->idx];
    auto touch = [&](Arena &ar, u8 *b, size_t len, bool writable) {
        if (!writable || !ar.p || b < ar.p || b > ar.p + ar.len) return;
        for (int k = 0; k < 12; k++) {
            long off = (long)(b - ar.p) + (r.chance(1, 2) ? -(long)(1 + r.below(96)) : (long)(len + r.below(96)));
            if (off < (long)ar.lo || off >= (long)ar.hi) continue;
            u8 v = (u8)r.next();
            ar.p[off] = v;
            ar.shadow[off - ar.lo] = v;
            C->stat("neighbour_bytes_changed");
        }
    };
    touch(o, c.out, c.n * 32, c.lout < 3);
    touch(i, c.in, c.n * 64, c.lin == 2);
}

void act(Point &p) {
    Call &c = me->calls[me->cur];
    C->log.ev(1, me->idx, me->cur, p.id);
    C->shape = mix(C->shape, p.addr - M.base, (u64)me->idx * 8 + p.act);
    C->state(mix(p.addr - M.base, p.act, (u64)c.impl * 64 + (c.n < 32 ? c.n : 32)));
    volatile u8 scribble[2048];  // what a signal frame does to the memory below the red zone
    for (size_t i = 0; i < sizeof scribble; i++) scribble[i] = (u8)(p.salt >> (8 * (i & 7)));
    switch (p.act) {
        case 0: {
            int t = pick_other(p.arg, me->idx);
            if (t >= 0) {
                C->stat("fault_preemption");
                if (T[t].cur >= 0) C->stat("probe_switch_into_call_in_progress");
                handoff(t);
            }
            break;
        }
        case 1:
            C->stat("fault_signal_handler_hashes");
            nested(p.arg, p.salt);
            break;
        case 2:
            C->stat("fault_neighbour_writes");
            neighbour(c, p.salt);
            break;
        case 3:
            C->stat("fault_signal_frame");
            break;
    }
}

void on_trap(int, siginfo_t *, void *v) {
    ucontext_t *uc = (ucontext_t *)v;
    auto &rip = uc->uc_mcontext.gregs[REG_RIP];
    auto &fl = uc->uc_mcontext.gregs[REG_EFL];
    if (tracing) {
        u64 a = (u64)rip;
        if (a >= M.tlo && a < M.thi && trace_seen.insert(a).second) trace_order->push_back(a - M.base);
        return;  // TF stays set
    }
    if (!me) _exit(5);
    if (me->stepping) {
        *(u8 *)me->stepping = 0xcc;
        me->stepping = 0;
        fl &= ~0x100;
        return;
    }
    u64 a = (u64)rip - 1;
    auto it = planted.find(a);
    if (it == planted.end()) {  // an int3 of the code itself
        crash_line("crash-trap", "unexpected trap");
        _exit(3);
    }
    rip = a;
    if (me->depth == 0 && me->cur >= 0) {
        Call &c = me->calls[me->cur];
        for (auto &p : c.pts)
            if (!p.done && p.addr == a && ++p.seen == p.hit) {
                p.done = true;
                act(p);
            }
    }
    *(u8 *)a = it->second;
    me->stepping = a;
    fl |= 0x100;
}

void on_fault(int sig, siginfo_t *si, void *v) {
    ucontext_t *uc = (ucontext_t *)v;
    if (sig == SIGILL && emu::sha(uc)) return;
    if (g_in_run && me) {
        u64 ip = (u64)uc->uc_mcontext.gregs[REG_RIP];
        bool write = uc->uc_mcontext.gregs[REG_ERR] & 2;
        std::string s = std::string(sig == SIGILL ? "illegal instruction" : write ? "write fault" : "read fault or unaligned access");
        if (me->cur >= 0) {
            auto &c = me->calls[me->cur];
            s += std::string(" in ") + IMPLN(c.impl) + " batch of " + std::to_string(c.n) + " blocks";
        }
        s += ip >= M.tlo && ip < M.thi ? " at kernel instruction" : " outside the kernel";
        s += "; address in " + describe((u64)si->si_addr);
        if (sig == SIGSEGV && si->si_code == SI_KERNEL) s += " (non-canonical address or misaligned operand)";
        g_phase = "hashing";
        static char buf[512];
        snprintf(buf, sizeof buf, "%s", s.c_str());
        crash_line(sig == SIGILL ? "illegal-instruction" : "memory-fault", buf);
        _exit(3);
    }
    crash_handler(sig, si, v);
}

void between(Thr *t, int k) {  // voluntary switch between two calls
    u64 h = mix(P->k("sched"), t->idx * 64 + k, sched_ctr++);
    if (h & 1) {
        int o = pick_other(h >> 8, t->idx);
        if (o >= 0) handoff(o);
    }
}

void place(Thr *t, int k);
void *thread_main(void *v) {
    Thr *t = (Thr *)v;
    me = t;
    static char alt[MAXT][1 << 15];
    stack_t ss{};
    ss.ss_sp = alt[t->idx];
    ss.ss_size = sizeof alt[0];
    sigaltstack(&ss, 0);
    while (sem_wait(&t->go)) {}
    t->started = true;
    for (size_t k = 0; k < t->calls.size(); k++) {
        between(t, k);
        Call &c = t->calls[k];
        t->cur = k;
        do_call(c.impl, c.out, c.in, c.n, c.salt, "call");
        t->cur = -1;
        c.ran = true;
        C->log.ev(4, t->idx, k, c.n);
        // the digests are read back at once: another caller may reuse nothing of ours, so nobody may change them later either
        Bytes in(c.in, c.in + 64 * c.n);
        check_digests(c.out, in.data(), c.n, c.impl, "call");
        C->log.b(c.out, 32 * c.n);
        // outside of this call's own buffers nothing may have changed (private arenas are reused, so check now)
        if (c.lout < 3) {
            Arena &o = A_out[t->idx];
            for (size_t i = o.lo; i < o.hi; i++)
                if ((o.p + i < c.out || o.p + i >= c.out + 32 * c.n) && o.p[i] != o.shadow[i - o.lo]) {
                    long d = (long)(o.p + i - c.out);
                    vfail("write-outside", std::string("memory outside the output buffer changed: ") + IMPLN(c.impl) + ", " + std::to_string(c.n) + " blocks, offset " + std::to_string(d) + " from buffer start");
                    break;
                }
        }
        if (c.lin < 3) {
            Arena &o = A_in[t->idx];
            if (memcmp(o.p + o.lo, o.shadow.data(), o.hi - o.lo)) vfail("write-input", std::string("the input region changed: ") + IMPLN(c.impl) + ", " + std::to_string(c.n) + " blocks");
        }
        // prepare the next call's buffers
        if (k + 1 < t->calls.size()) place(t, k + 1);
    }
    t->finished = true;
    int o = pick_other(mix(P->k("sched"), 99, sched_ctr++), t->idx);
    C->log.ev(5, t->idx, o + 1);
    if (o >= 0)
        sem_post(&T[o].go);
    else
        sem_post(&all_done);
    return nullptr;
}

size_t slab_used = 0;
u8 POOL[4][64];  // blocks that occur again and again, in all threads
// Blocks that repeat, share a half with another one, or differ from it in one bit.
void texture(u8 *b, size_t n, Rng &r) {
    u64 dense = r.below(4);
    for (size_t i = 0; i < n && i < 4096; i++, b += 64) {
        if (r.below(4) < dense) continue;
        const u8 *q = POOL[r.below(4)];
        switch (r.below(8)) {
            case 0: memset(b, 0, 64); break;
            case 1: memset(b, 0xff, 64); break;
            case 2: memcpy(b, q, 64); break;
            case 3: memcpy(b, q, 32); break;
            case 4: memcpy(b + 32, q + 32, 32); break;
            case 5: memcpy(b, q, 64); b[r.below(64)] ^= 1 << r.below(8); break;
            case 6: if (i) memcpy(b, b - 64, 64); break;
            default: memcpy(b + 32, b, 32);
        }
    }
}
void place(Thr *t, int k) {
    Call &c = t->calls[k];
    Rng r(c.salt);
    auto put = [&](Arena &ar, u64 lay, size_t len) -> u8 * {
        ar.rw();
        size_t span = (len + PG + 511) / PG * PG;
        ar.lo = lay == 0 ? ar.len - span : 0;
        ar.hi = ar.lo + span;
        r.fill(ar.p + ar.lo, span);
        u8 *b;
        if (lay == 0)
            b = ar.p + ar.len - len;  // ends where an unmapped page begins
        else if (lay == 1)
            b = ar.p;  // begins where an unmapped page ends
        else
            b = ar.p + 128 + r.below(span - len - 256);
        ar.shadow.assign(ar.p + ar.lo, ar.p + ar.hi);
        return b;
    };
    if (c.lin < 3) {
        c.in = put(A_in[t->idx], c.lin, 64 * c.n);
        if (r.chance(1, 2)) {
            texture(c.in, c.n, r);
            A_in[t->idx].shadow.assign(A_in[t->idx].p + A_in[t->idx].lo, A_in[t->idx].p + A_in[t->idx].hi);
        }
        if (c.lin != 2) A_in[t->idx].ro();
    } else {
        size_t tot = ARENA / 64;
        c.in = SHIN.p + 64 * r.below(tot - c.n + 1);
        if (r.chance(1, 2) && c.in + 64 * c.n + 64 <= SHIN.p + ARENA) c.in += r.below(64);
    }
    if (c.lout < 3) {
        c.out = put(A_out[t->idx], c.lout, 32 * c.n);
    }
}
}  // namespace

struct KWorld : World {
    bool ready = false;
    pthread_attr_t small_stack[MAXT];
    void setup(const std::string &) override {
        if (ready) return;
        ready = true;
        const char *path = getenv("SIM_KERN");
        void *h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
        if (!h) {
            fprintf(stderr, "dlopen: %s\n", dlerror());
            _exit(2);
        }
        M.make = (void *(*)(int))dlsym(h, "k_make");
        M.free_ = (void (*)(void *))dlsym(h, "k_free");
        M.hash = (hash_fn)dlsym(h, "k_hash");
        M.impl = (int (*)())dlsym(h, "k_impl");
        struct Arg {
            u64 base;
        };
        struct link_map *lm;
        dlinfo(h, RTLD_DI_LINKMAP, &lm);
        M.base = lm->l_addr;
        dl_iterate_phdr(
            [](struct dl_phdr_info *i, size_t, void *) {
                if (i->dlpi_addr != M.base || !i->dlpi_addr) return 0;
                for (int k = 0; k < i->dlpi_phnum; k++) {
                    auto &ph = i->dlpi_phdr[k];
                    if (ph.p_type != PT_LOAD) continue;
                    u64 lo = M.base + ph.p_vaddr, hi = lo + ph.p_memsz;
                    if (ph.p_flags & PF_X) {
                        M.tlo = lo;
                        M.thi = hi;
                        mprotect((void *)(lo & ~(PG - 1)), ((hi + PG - 1) & ~(PG - 1)) - (lo & ~(PG - 1)), PROT_READ | PROT_WRITE | PROT_EXEC);
                    } else if (ph.p_flags & PF_W)
                        M.wr.push_back({lo, hi});
                }
                for (int k = 0; k < i->dlpi_phnum; k++) {  // the RELRO part is read-only by now and cannot change
                    auto &ph = i->dlpi_phdr[k];
                    if (ph.p_type != PT_GNU_RELRO) continue;
                    u64 rlo = M.base + ph.p_vaddr, rhi = (rlo + ph.p_memsz) & ~(PG - 1);
                    for (auto &w : M.wr)
                        if (rlo <= w.first && w.first < rhi) w.first = std::min(rhi, w.second);
                }
                return 1;
            },
            nullptr);
        for (auto &w : M.wr) M.snap.push_back(Bytes((u8 *)w.first, (u8 *)w.second));
        for (int i = 0; i < MAXT; i++) {
            A_in[i].init((HUGE_N * 64 / PG + 2) * PG);
            A_out[i].init((HUGE_N * 32 / PG + 2) * PG);
            T[i].idx = i;
            sem_init(&T[i].go, 0, 0);
        }
        sem_init(&all_done, 0, 0);
        for (auto &a : small_stack) {  // as small as embedders and fibers have them, far above anything else
            const size_t guard = 64 << 20, size = 256 << 10;
            u8 *m = (u8 *)mmap(0, guard + size, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            mprotect(m + guard, size, PROT_READ | PROT_WRITE);
            pthread_attr_init(&a);
            pthread_attr_setstack(&a, m + guard, size);
        }
        N_in.init();
        N_out.init();
        SHIN.init();
        SLAB.init();
        struct sigaction sa {};
        sa.sa_flags = SA_SIGINFO | SA_NODEFER;
        sa.sa_sigaction = on_trap;
        sigaction(SIGTRAP, &sa, 0);
        sa.sa_sigaction = on_fault;
        for (int s : {SIGILL, SIGFPE}) sigaction(s, &sa, 0);
        sa.sa_flags |= SA_ONSTACK;  // the stack itself may have run out
        for (int s : {SIGSEGV, SIGBUS}) sigaction(s, &sa, 0);
        int have = M.impl();
        u32 a, b, c, d;
        bool avx = __get_cpuid(1, &a, &b, &c, &d) && (c & bit_AVX), avx2 = __get_cpuid_count(7, 0, &a, &b, &c, &d) && (b & bit_AVX2);
        (void)have;
        M.impls.push_back(8);  // the SHA extensions are executed in software where the host lacks them
        if (avx) {
            M.impls.push_back(1);
            M.impls.push_back(2);
        }
        if (avx2) M.impls.push_back(4);
        M.impls.push_back(0);
        load_trace();
    }
    static void step_trace(int impl, u64 n) {
        static u8 in[64 * 40], out[32 * 40];
        static char alt[1 << 16];
        stack_t ss{};  // the trace must not disturb the stack it observes
        ss.ss_sp = alt;
        ss.ss_size = sizeof alt;
        sigaltstack(&ss, 0);
        for (int sg : {SIGTRAP, SIGILL}) {
            struct sigaction sa {};
            sigaction(sg, 0, &sa);
            sa.sa_flags |= SA_ONSTACK;
            sigaction(sg, &sa, 0);
        }
        void *h = M.make(impl);
        tracing = true;
        asm volatile("pushfq\n orq $0x100,(%%rsp)\n popfq" ::: "memory", "cc");
        M.hash(h, out, in, n);
        asm volatile("pushfq\n andq $~0x100,(%%rsp)\n popfq" ::: "memory", "cc");
        tracing = false;
        M.free_(h);
    }
    void make_trace() {
        for (int impl : M.impls) {
            trace_seen.clear();
            trace_order = &M.order[impl];
            u64 lanes = impl == 4 ? 8 : impl == 2 ? 4 : 2;
            for (u64 n : {(u64)1, lanes, lanes + 1, (u64)3, 2 * lanes + lanes / 2 + 1, (u64)0}) {
                // In a child: code that crashes or hangs here is left for the simulated runs to report.
                const size_t cap = 1 << 18;
                u64 *sh = (u64 *)mmap(0, cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
                pid_t pid = fork();
                if (!pid) {
                    arm_watchdog(20);
                    alarm(60);
                    step_trace(impl, n);
                    auto &o = *trace_order;
                    for (size_t i = 0; i < o.size() && i + 1 < cap; i++) sh[i + 1] = o[i];
                    sh[0] = std::min(o.size(), cap - 1);
                    _exit(0);
                }
                int st;
                waitpid(pid, &st, 0);
                for (u64 i = 0; i < sh[0]; i++)
                    if (trace_seen.insert(sh[i + 1] + M.base).second) trace_order->push_back(sh[i + 1]);
                munmap(sh, cap * 8);
            }
        }
    }
    void load_trace() {
        const char *f = getenv("SIM_TRACE");
        FILE *fp = f ? fopen(f, "rb") : nullptr;
        if (fp) {
            u64 v[2];
            while (fread(v, 8, 2, fp) == 2) M.order[(int)v[0]].push_back(v[1]);
            fclose(fp);
            return;
        }
        make_trace();
        if (f) {
            std::string tmp = std::string(f) + ".tmp" + std::to_string(getpid());
            fp = fopen(tmp.c_str(), "wb");
            for (auto &k : M.order)
                for (u64 a : k.second) {
                    u64 v[2] = {(u64)k.first, a};
                    fwrite(v, 8, 2, fp);
                }
            fclose(fp);
            rename(tmp.c_str(), f);
        }
    }
    static u64 count(Rng &r, bool big) {
        switch (r.below(10)) {
            case 0: return 0;
            case 1: return 1;
            case 2: return r.range(2, 5);
            case 3: return r.pick({4ul, 8ul, 16ul});
            case 4: return r.range(6, 9);
            case 5: return r.range(10, 17);
            case 6: return !big ? r.range(1, 3) : r.chance(1, 12) ? r.pick({255ul, 256ul, 257ul, 511ul, 513ul, 1023ul, 1024ul, 1029ul}) : r.range(18, 130);
            default: return r.range(1, 9);
        }
    }
    Plan gen(const std::string &prop, u64 seed, bool thorough) override {
        Rng r(seed);
        Plan p;
        p.prop = prop;
        p.seed = seed;
        bool c02 = prop == "C02";
        u64 nt = c02 ? r.range(1, 2) : r.range(2, 4);
        p.knob["threads"] = nt;
        p.knob["sched"] = r.next();
        // swarm: one implementation for all threads (shared state of one kernel) or a mix of them
        bool same = r.chance(2, 3);
        u64 simpl = r.below(5);
        bool big = r.chance(1, thorough ? 3 : 6);
        u64 wsw = r.range(0, 4), wsig = r.range(0, 3), wnb = r.range(0, 2), wfr = r.range(0, 1);
        if (r.chance(1, thorough ? 600 : 2500)) {  // one enormous batch, alone
            p.knob["threads"] = 1;
            p.add("call", {0, simpl, r.pick({32767ul, 32769ul, 65535ul, 65536ul, 65537ul, 65543ul}) + (r.chance(1, 4) ? r.below(20) : 0), r.below(3), r.below(3), r.next()});
            p.add("at", {0, 0, r.below(1u << 30), r.range(1, 40), r.below(4), r.below(64), r.next()});
            return p;
        }
        if (!c02 && r.chance(1, thorough ? 8000 : 18000)) {
            p.add("vast", {r.pick({2ul, 4ul, 8ul, 0ul, 1ul}), (1ul << r.range(25, 26)) + r.range(1, 40), r.next()});
            return p;
        }
        bool lengthy = r.chance(1, thorough ? 20 : 50);  // many small calls in one life of the process
        if (!c02) wsw += 2, wnb = 0;
        else wnb += 1;
        if (wsw + wsig + wnb + wfr == 0) wsw = 1;
        for (u64 t = 0; t < nt; t++) {
            u64 nc = lengthy ? r.range(30, 120) / nt : r.range(1, c02 ? 4 : 3);
            for (u64 k = 0; k < nc; k++) {
                u64 lin = c02 ? r.below(4) : r.pick({0ul, 2ul, 3ul, 3ul}), lout = c02 ? r.below(3) : r.pick({0ul, 2ul, 3ul, 3ul});
                p.add("call", {t, same ? simpl : r.below(5), lengthy ? r.range(1, 5) : count(r, big), lin, lout, r.next()});
                u64 np = lengthy ? r.chance(1, 8) : c02 ? r.below(4) : r.below(5);
                for (u64 i = 0; i < np; i++) {
                    u64 w = r.below(wsw + wsig + wnb + wfr);
                    u64 act = w < wsw ? 0 : w < wsw + wsig ? 1 : w < wsw + wsig + wnb ? 2 : 3;
                    u64 hit = 1;
                    while (hit < 60 && r.chance(1, 3)) hit += r.range(1, 4);
                    p.add("at", {t, k, r.below(1u << 30), hit, act, r.below(64), r.next()});
                }
            }
        }
        return p;
    }
    void exec(const Plan &p, Ctx &c) override {
        C = &c;
        P = &p;
        sched_ctr = 0;
        slab_used = 0;
        NT = std::min<u64>(MAXT, std::max<u64>(1, p.k("threads", 1)));
        for (auto &w : M.wr) {
            size_t i = &w - &M.wr[0];
            memcpy((void *)w.first, M.snap[i].data(), M.snap[i].size());
        }
        for (int i = 0; i < MAXT; i++) {
            T[i].calls.clear();
            T[i].finished = true;
            T[i].cur = -1;
            T[i].depth = 0;
            T[i].stepping = 0;
        }
        for (int i : M.impls) shared_hasher[i] = M.make(i);
        SHIN.rw();
        Rng rs(p.k("sched") ^ 5);
        rs.fill(SHIN.p, ARENA);
        rs.fill(POOL, sizeof POOL);
        if (rs.chance(1, 2)) texture(SHIN.p, ARENA / 64, rs);
        Bytes shin(SHIN.p, SHIN.p + ARENA);
        SHIN.ro();
        rs.fill(SLAB.p, ARENA);
        Bytes slab(SLAB.p, SLAB.p + ARENA);
        size_t off = 3 + rs.below(64), npts = 0;
        u64 id = 0;
        for (auto &s : p.steps) {
            if (s.op == "vast") {
                u32 a, b = 0, cc, d;
                __get_cpuid_count(7, 0, &a, &b, &cc, &d);
                int impl = s.arg(0);  // what runs in software here, or is slow, would take minutes
                if (std::find(M.impls.begin(), M.impls.end(), impl) == M.impls.end() || ((impl == 8 || !impl) && !(b >> 29 & 1))) impl = M.impls.back() ? M.impls.back() : M.impls[M.impls.size() - 2];
                if (impl != 8 || b >> 29 & 1) vast(impl, impl == 1 || impl == 2 ? std::min<u64>(s.arg(1), (1 << 25) + 40) : std::min<u64>(s.arg(1), (1 << 26) + 40), s.arg(2));
            }
            if (s.op == "call") {
                Call k;
                k.impl = M.impls[s.arg(1) % M.impls.size()];
                k.n = std::min<u64>(s.arg(2), HUGE_N);
                k.lin = s.arg(3) % 4;
                k.lout = s.arg(4) % 4;
                if (k.n > MAXN) {
                    k.lin %= 3;
                    k.lout %= 3;
                }
                k.salt = s.arg(5);
                if (k.lout == 3) {
                    if (off + 32 * k.n + 64 > ARENA)
                        k.lout = 2;
                    else {
                        k.out = SLAB.p + off;
                        off += 32 * k.n;
                    }
                }
                T[s.arg(0) % NT].calls.push_back(k);
            }
        }
        for (auto &s : p.steps) {
            if (s.op != "at") continue;
            Thr &t = T[s.arg(0) % NT];
            if (t.calls.empty()) continue;
            Call &k = t.calls[s.arg(1) % t.calls.size()];
            auto &o = M.order[k.impl];
            if (o.empty()) continue;
            Point q;
            q.addr = M.base + o[(s.arg(2) * o.size()) >> 30];
            q.hit = std::max<u64>(1, s.arg(3));
            q.act = s.arg(4) % 4;
            q.arg = s.arg(5);
            q.salt = s.arg(6);
            q.id = id++;
            k.pts.push_back(q);
            plant(q.addr);
            npts++;
        }
        int first = -1;
        for (int i = 0; i < NT; i++) {
            if (T[i].calls.empty()) continue;
            T[i].finished = false;
            place(&T[i], 0);
            if (first < 0) first = i;
        }
        if (first < 0) { for (auto &h : shared_hasher) M.free_(h.second); return; }
        for (int i = 0; i < NT; i++)
            if (!T[i].finished) pthread_create(&T[i].t, &small_stack[i], thread_main, &T[i]);
        std::vector<int> live;
        for (int i = 0; i < NT; i++)
            if (!T[i].finished) live.push_back(i);
        sem_post(&T[live[p.k("sched") % live.size()]].go);
        while (sem_wait(&all_done)) {}
        for (int i : live) pthread_join(T[i].t, 0);
        unplant_all();
        for (auto &h : shared_hasher) M.free_(h.second);
        u64 fired = 0, blocks = 0;
        for (int i = 0; i < NT; i++)
            for (auto &k : T[i].calls) {
                blocks += k.n;
                for (auto &q : k.pts) fired += q.done;
                if (k.lout == 3) {
                    Bytes in(k.in, k.in + 0);
                    if (k.lin >= 3) check_digests(k.out, k.in, k.n, k.impl, "shared output region, at the end");
                    for (size_t b = 0; b < 32 * k.n; b++) slab[k.out - SLAB.p + b] = k.out[b];
                }
            }
        if (memcmp(slab.data(), SLAB.p, ARENA)) vfail("write-outside", "memory outside every output buffer of the shared output region changed");
        if (memcmp(shin.data(), SHIN.p, ARENA)) vfail("write-input", "the shared read-only input changed");
        c.stat("hash_calls", [&] {
            u64 n = 0;
            for (int i = 0; i < NT; i++) n += T[i].calls.size();
            return n;
        }());
        c.stat("blocks_hashed", blocks);
        c.stat("points_planned", npts);
        c.stat("points_fired", fired);
        c.r.nontrivial = fired > 0 && blocks > 0;
        for (int i = 0; i < NT; i++)
            for (auto &k : T[i].calls) {
                c.stat((std::string("calls_") + IMPLN(k.impl)).c_str());
                c.shape = mix(c.shape, k.impl * 256 + k.n, k.lin * 4 + k.lout);
            }
    }
};

int main(int argc, char **argv) {
    no_aslr(argv);
    KWorld w;
    if (argc > 1 && !strcmp(argv[1], "trace")) {
        w.setup("C01");
        for (auto &k : M.order) printf("%s %zu instructions\n", IMPLN(k.first), k.second.size());
        return 0;
    }
    return worker_main(argc, argv, w, false);
}
