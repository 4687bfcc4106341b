// The fleet: several nodes, each the real library loaded afresh (its own statics, its own start-up, its own CPU),
// a simulated network, clock and disk between them, and an allocator and memory contents the simulator controls.
#include <cpuid.h>
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <ucontext.h>

#include <memory>
#include <new>

#include "api.h"
#include "common.hpp"
#include "emu.hpp"
#include "model.hpp"
#include "module.hpp"

using namespace sim;
using model::Val;

// ---- memory: contents, failures and accounting -------------------------------------------------
namespace mem {
bool in_node = false;   // the real code is running
bool poison = false;    // fill blocks handed out and taken back
u8 pat = 0xcb;
long fail_at = -1, fail_len = 0;  // allocations fail_at .. fail_at + fail_len - 1 of the current call fail
long count = 0, failed = 0;       // of the current call
long live = 0;                    // blocks the real code holds
long bytes = 0, peak = 0;         // bytes it holds now / most since reset
size_t cap = 0;                   // single allocations above this fail (0: none)
bool over_cap = false;
size_t big = 0;

size_t shift = 0;                 // blocks and the stack lie at multiples of 16 (0) or at odd multiples of it (16)
bool overrun = false;             // something was written around a block
#ifdef SIM_ASAN
size_t size_of(void *p) { return malloc_usable_size(p); }
#else
struct Head {  // before every block; the same pattern follows it
    void *raw;
    size_t size;
    u8 guard[48];
};
static_assert(sizeof(Head) == 64);
size_t size_of(void *p) { return ((Head *)p)[-1].size; }
#endif

void *alloc(size_t n, size_t al, bool nothrow) {
    if (in_node) {
        long k = count++;
        if (fail_at >= 0 && k >= fail_at && k < fail_at + fail_len) {
            failed++;
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
        if (cap && n > cap) {
            over_cap = true;
            big = n;
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
    }
#ifdef SIM_ASAN
    void *p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
#else
    if (al < 16) al = 16;
    size_t move = al == 16 ? shift : 0;
    void *raw = malloc(n + (move ? 32 : al) + 96 + move), *p = nullptr;
    if (raw) {
        uintptr_t q = move ? (uintptr_t(raw) + 64 + 31) / 32 * 32 + move : (uintptr_t(raw) + 64 + al - 1) / al * al;
        p = (void *)q;
        Head *h = (Head *)(q - 64);
        h->raw = raw;
        h->size = n;
        memset(h->guard, 0x9d, sizeof h->guard);
        memset((u8 *)p + n, 0x9d, 32);
    }
#endif
    if (!p) {
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    if (in_node) {
        live++;
        bytes += size_of(p);
        if (bytes > peak) peak = bytes;
        if (poison) memset(p, pat, n);
    }
    return p;
}
void release(void *p) {
    if (!p) return;
    if (in_node) {
        live--;
        size_t n = size_of(p);
        bytes -= n;
#ifndef SIM_ASAN
        const u8 *g = ((Head *)p)[-1].guard, *e = (u8 *)p + n;
        for (int i = 0; i < 48; i++) overrun |= g[i] != 0x9d;
        for (int i = 0; i < 32; i++) overrun |= e[i] != 0x9d;
#endif
        if (poison) memset(p, u8(~pat), n);
    }
#ifdef SIM_ASAN
    free(p);
#else
    free(((Head *)p)[-1].raw);
#endif
}
}  // namespace mem
void *operator new(size_t n) { return mem::alloc(n, 0, false); }
void *operator new[](size_t n) { return mem::alloc(n, 0, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return mem::alloc(n, 0, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return mem::alloc(n, 0, true); }
void *operator new(size_t n, std::align_val_t a) { return mem::alloc(n, size_t(a), false); }
void *operator new[](size_t n, std::align_val_t a) { return mem::alloc(n, size_t(a), false); }
void operator delete(void *p) noexcept { mem::release(p); }
void operator delete[](void *p) noexcept { mem::release(p); }
void operator delete(void *p, size_t) noexcept { mem::release(p); }
void operator delete[](void *p, size_t) noexcept { mem::release(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { mem::release(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { mem::release(p); }
void operator delete(void *p, std::align_val_t) noexcept { mem::release(p); }
void operator delete[](void *p, std::align_val_t) noexcept { mem::release(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { mem::release(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { mem::release(p); }

// The C allocator as the nodes see it (nodealloc.cpp).
static std::unordered_set<void *> &c_blocks() {
    static auto *s = new std::unordered_set<void *>;
    return *s;
}
extern "C" void *sim_malloc(size_t n, size_t al, int zero) {
    void *p = mem::alloc(n, al, true);
    if (!p) {
        errno = ENOMEM;
        return nullptr;
    }
    if (zero) memset(p, 0, n);
    bool in = mem::in_node;
    mem::in_node = false;
    c_blocks().insert(p);
    mem::in_node = in;
    return p;
}
extern "C" void sim_free(void *p) {
    bool in = mem::in_node;
    mem::in_node = false;
    bool ours = p && c_blocks().erase(p);
    mem::in_node = in;
    if (ours) mem::release(p);
    else free(p);  // from inside the C library
}
extern "C" void *sim_realloc(void *p, size_t n) {
    if (!p) return sim_malloc(n, 0, 0);
    bool in = mem::in_node;
    mem::in_node = false;
    bool ours = c_blocks().count(p);
    mem::in_node = in;
    if (!ours) return realloc(p, n);
    void *q = sim_malloc(n, 0, 0);
    if (!q) return nullptr;
    memcpy(q, p, std::min(n, mem::size_of(p)));
    sim_free(p);
    return q;
}

#ifdef SIM_ASAN
extern "C" const char *__asan_get_report_description(void);
extern "C" void __asan_on_error(void) {
    std::string c = "memory-error";
    const char *d = __asan_get_report_description();
    std::string m = std::string("AddressSanitizer: ") + (d ? d : "?");
    for (auto &x : m)
        if (x == '"' || x == '\\' || x < 32) x = ' ';
    if (g_in_run) crash_line(c.c_str(), m.substr(0, 200).c_str());
}
#endif

// ---- CPUs --------------------------------------------------------------------------------------
struct Cpu {
    const char *name;
    bool intel;
    u32 maxleaf;
    bool sha, avx, osxsave, avx2;
};
static const Cpu CPUS[] = {
    {"full", true, 0x1b, true, true, true, true},       {"haswell", true, 0xd, false, true, true, true},       {"sandybridge", true, 0xd, false, true, true, false},
    {"sandybridge-leaf1", true, 1, false, true, true, false}, {"sandybridge-leaf4", true, 4, false, true, true, false}, {"sandybridge-leaf6", true, 6, false, true, true, false},
    {"bulldozer", false, 0xd, false, true, true, false}, {"bulldozer-leaf1", false, 1, false, true, true, false}, {"zen", false, 0xd, true, true, true, true},
    {"goldmont", true, 0x15, true, false, true, false},  {"goldmont-no-xsave", true, 0x15, true, false, false, false}, {"zen-avx-disabled", false, 0xd, true, false, false, false},
    {"haswell-leaf3", true, 3, false, true, true, false}, {"full-leaf7", true, 7, true, true, true, true},      {"sha-avx1", false, 0xd, true, true, true, false},
};
static const size_t NCPU = sizeof CPUS / sizeof *CPUS;
static Cpu host_cpu{"host", true, 0, false, false, false, false};
static void probe_host() {
    u32 a, b, c, d;
    host_cpu.sha = host_cpu.avx = host_cpu.avx2 = false;
    if (__get_cpuid_count(7, 0, &a, &b, &c, &d)) {
        host_cpu.sha = b & (1u << 29);
        host_cpu.avx2 = b & (1u << 5);
    }
    if (__get_cpuid(1, &a, &b, &c, &d)) host_cpu.avx = (c & (1u << 28)) && (c & (1u << 27));
}
static bool can_simulate(const Cpu &c) { return (!c.avx || host_cpu.avx) && (!c.avx2 || host_cpu.avx2); }
static void cpuid_of(const Cpu &p, u32 leaf, u32 sub, u32 o[4]) {
    o[0] = o[1] = o[2] = o[3] = 0;
    if (leaf >= 0x80000000u) {
        if (leaf == 0x80000000u) o[0] = 0x80000001u;
        if (leaf == 0x80000001u) { o[2] = 1; o[3] = 1u << 29 | 1u << 20; }
        else if (leaf > 0x80000001u && p.intel) cpuid_of(p, p.maxleaf, 0, o);
        return;
    }
    if (leaf > p.maxleaf) {
        if (p.intel) cpuid_of(p, p.maxleaf, 0, o);
        return;
    }
    switch (leaf) {
        case 0:
            o[0] = p.maxleaf;
            if (p.intel) { o[1] = 0x756e6547; o[3] = 0x49656e69; o[2] = 0x6c65746e; }
            else { o[1] = 0x68747541; o[3] = 0x69746e65; o[2] = 0x444d4163; }
            break;
        case 1:
            o[0] = 0x000206a7;
            o[1] = 0x00100800;
            o[2] = 1 | 1 << 1 | 1 << 9 | 1 << 13 | 1 << 19 | 1 << 20 | 1 << 23 | 1 << 26 | (p.osxsave ? 1 << 27 : 0) | (p.avx ? 1 << 28 : 0);
            o[3] = 0x078bfbff;
            break;
        case 4: o[0] = sub < 3 ? 0x21 + sub : 0; o[1] = 0x01c0003f; o[2] = 63; break;
        case 7:
            if (sub == 0) o[1] = (p.avx2 ? 1 << 5 | 1 << 3 | 1 << 8 : 0) | (p.sha ? 1 << 29 : 0) | 1 << 9;
            break;
        case 0xd:
            if (p.osxsave && sub == 0) { o[0] = p.avx ? 7 : 3; o[1] = o[2] = 0x340; }
            break;
        default: break;
    }
}

// ---- loading a node ----------------------------------------------------------------------------
struct Image {
    std::vector<u8> file;
    std::vector<std::pair<u64, char>> isa;  // file offset == virtual address for .text of our modules
    std::vector<std::pair<u64, u64>> seg;   // vaddr -> file offset
};
static Image images[2];
static const Cpu *cur_cpu = nullptr;
static int cur_image = 0;
static bool patched_world = false;
static u64 cpuid_calls = 0, sha_emulated = 0, xgetbv_calls = 0;

static u64 to_off(const Image &im, u64 va) {
    const ElfW(Ehdr) *eh = (const ElfW(Ehdr) *)im.file.data();
    const ElfW(Phdr) *ph = (const ElfW(Phdr) *)(im.file.data() + eh->e_phoff);
    for (int i = 0; i < eh->e_phnum; i++)
        if (ph[i].p_type == PT_LOAD && va >= ph[i].p_vaddr && va < ph[i].p_vaddr + ph[i].p_filesz) return va - ph[i].p_vaddr + ph[i].p_offset;
    return 0;
}
static void load_image(int k, const char *so, const char *isa) {
    Image &im = images[k];
    if (!so) return;
    FILE *f = fopen(so, "rb");
    if (!f) { fprintf(stderr, "no module %s\n", so); _exit(4); }
    fseek(f, 0, SEEK_END);
    im.file.resize(ftell(f));
    rewind(f);
    if (fread(im.file.data(), 1, im.file.size(), f) != im.file.size()) _exit(4);
    fclose(f);
    if (isa && (f = fopen(isa, "r"))) {
        unsigned long long a;
        char c;
        while (fscanf(f, "%llx %c", &a, &c) == 2) im.isa.push_back({a, c});
        fclose(f);
    }
}
struct Slotfd { int fd = -1; std::string path; bool busy = false; };
static std::map<std::pair<int, int>, std::vector<Slotfd>> pool;  // (image, cpu) -> memory files
static int next_fd = 200;

struct Node {
    void *h = nullptr;
    const NodeApi *api = nullptr;
    int image = 0, cpu = 0;
    Slotfd *sf = nullptr;
    u64 base = 0;
    bool start(int image_, int cpu_) {
        image = image_;
        cpu = cpu_;
        auto &v = pool[{image, patched_world ? cpu : 0}];
        v.reserve(64);
        sf = nullptr;
        for (auto &s : v)
            if (!s.busy) { sf = &s; break; }
        if (!sf) {
            if (v.size() >= 60) { fprintf(stderr, "node modules are not unloaded\n"); _exit(4); }
            const Image &im = images[image];
            std::vector<u8> b = im.file;
            const Cpu &c = CPUS[cpu];
            if (patched_world)
                for (auto &r : im.isa) {
                    u64 o = to_off(im, r.first);
                    if (!o || o + 2 > b.size()) continue;
                    bool bad = (r.second == 'S' && (!c.sha || !host_cpu.sha)) || (r.second == '1' && !c.avx) || (r.second == '2' && !c.avx2) || r.second == '5' || (r.second == 'B' && !c.avx2);
                    if (r.second == 'C') { b[o] = 0xcc; b[o + 1] = 0x90; }
                    else if (r.second == 'X' || bad) b[o] = 0xcc;
                }
            Slotfd s;
            int fd = memfd_create("node", MFD_CLOEXEC);
            if (fd < 0 || write(fd, b.data(), b.size()) != (ssize_t)b.size()) { fprintf(stderr, "memfd\n"); _exit(4); }
            s.fd = fcntl(fd, F_DUPFD_CLOEXEC, next_fd++);
            close(fd);
            s.path = "/proc/self/fd/" + std::to_string(s.fd);
            v.push_back(s);
            sf = &v.back();
        }
        sf->busy = true;
        cur_cpu = &CPUS[cpu];
        cur_image = image;
        g_phase = "start-up of a node";
        mem::in_node = true;
        h = dlopen(sf->path.c_str(), RTLD_NOW | RTLD_LOCAL);
        mem::in_node = false;
        if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(4); }
        struct link_map *lm;
        dlinfo(h, RTLD_DI_LINKMAP, &lm);
        base = lm->l_addr;
        api = ((const NodeApi *(*)())dlsym(h, "mammon_node"))();
        return true;
    }
    void stop() {
        if (!h) return;
        g_phase = "shutdown of a node";
        cur_cpu = &CPUS[cpu];
        mem::in_node = true;
        run_tls_dtors(h);
        dlclose(h);
        mem::in_node = false;
        h = nullptr;
        void *still = dlopen(sf->path.c_str(), RTLD_NOW | RTLD_NOLOAD);
        if (!still) sf->busy = false;  // else the module stayed; never use this copy again
    }
    const TypeOps *ops(const char *name) const {
        for (size_t p = 0; p < api->nparts; p++)
            for (size_t i = 0; i < *api->parts[p].n; i++)
                if (!strcmp(api->parts[p].types[i].name, name)) return &api->parts[p].types[i];
        fprintf(stderr, "the node has no type %s\n", name);
        _exit(4);
    }
};

static u64 node_base_of(u64 ip) {
    u64 best = 0;
    for (link_map *m = _r_debug.r_map; m; m = m->l_next)
        if (m->l_name && !strncmp(m->l_name, "/proc/self/fd/", 14) && m->l_addr <= ip && m->l_addr > best) best = m->l_addr;
    return best;
}
static void on_trap(int, siginfo_t *, void *uc_) {
    ucontext_t *uc = (ucontext_t *)uc_;
    greg_t *g = uc->uc_mcontext.gregs;
    u64 ip = g[REG_RIP] - 1, base = node_base_of(ip), va = ip - base;
    auto &isa = images[cur_image].isa;
    char code = 0;
    auto it = std::lower_bound(isa.begin(), isa.end(), std::make_pair(va, char(0)));
    if (base && it != isa.end() && it->first == va) code = it->second;
    char b[160];
    if (code == 'C') {
        cpuid_calls++;
        u32 o[4];
        cpuid_of(*cur_cpu, (u32)g[REG_RAX], (u32)g[REG_RCX], o);
        g[REG_RAX] = o[0];
        g[REG_RBX] = o[1];
        g[REG_RCX] = o[2];
        g[REG_RDX] = o[3];
        return;  // the second byte is a nop
    }
    if (code == 'X' && cur_cpu->osxsave) {
        xgetbv_calls++;
        g[REG_RAX] = cur_cpu->avx ? 7 : 3;
        g[REG_RDX] = 0;
        g[REG_RIP] += 2;
        return;
    }
    if (code == 'S' && cur_cpu->sha) {
        g[REG_RIP] = ip;
        u64 off = to_off(images[cur_image], va);
        sha_emulated++;
        if (emu::sha_bytes(uc, images[cur_image].file.data() + off)) return;
    }
    const char *need = code == 'S' ? "SHA extensions" : code == '1' ? "AVX" : code == '2' ? "AVX2" : code == '5' ? "AVX-512" : code == 'B' ? "BMI" : code == 'X' ? "XGETBV" : "?";
    snprintf(b, sizeof b, "CPU '%s' was given an instruction it does not report (%s)", cur_cpu ? cur_cpu->name : "?", need);
    if (g_in_run) crash_line(code ? "illegal-instruction" : "trap", b);
    _exit(g_in_run ? 3 : 4);
}

__attribute__((noinline)) static void scribble(u8 pat) {
    volatile u8 junk[24576];
    memset((void *)junk, pat, sizeof junk);
    asm volatile("" : : "r"(junk) : "memory");
}

// ---- the simulation ----------------------------------------------------------------------------
struct Obj {
    void *p = nullptr;
    std::optional<Val> known;  // what it must hold, if the simulation knows
};
struct Topic {
    const model::Ty *ty;
    const char *name;
    Val pub;
    Bytes bytes, prev;  // current and previous published encoding
    std::optional<model::Chunk> root;
};
struct Message {
    u64 at, seq;
    size_t node, slot;
    Bytes data;
    std::string what;
};
struct Disk {
    Bytes durable;
    bool present = false;
    std::vector<Bytes> pending;
};
struct Sim {
    const Plan &p;
    Ctx &c;
    Stats *st;
    int prop;
    const model::Schema &sch;
    std::vector<Node> nodes;
    std::vector<Topic> topic;
    std::vector<std::vector<std::array<Obj, 2>>> obj;  // [node][slot][which]
    std::vector<std::vector<Disk>> disk;
    std::vector<std::vector<const TypeOps *>> ops;
    std::vector<Message> net;
    u64 now = 0, seq = 0;
    std::vector<u64> trail;  // one hash per event, for comparing executions
    u64 faults = 0;
    u8 pat = 0xcb;
    std::string where;

    Sim(const Plan &p_, Ctx &c_, int prop_, const model::Schema &s) : p(p_), c(c_), st(c_.st), prop(prop_), sch(s) {}

    void fault(const char *k) {
        c.stat((std::string("fault_") + k).c_str());
        faults++;
    }
    void ev(u64 kind, u64 a = 0, u64 b = 0, u64 d = 0) {
        c.log.ev(kind, a, b, d);
        trail.push_back(c.log.h);
    }
    void evb(u64 kind, const Bytes &b) {
        Log l;
        l.bytes(b);
        ev(kind, l.h);
    }
    void shape(u64 a, u64 b = 0, u64 d = 0) { c.shape = mix(c.shape ^ mix(a, b), d); }
    void fail(const std::string &cls, const std::string &msg) {
        if (prop == 12 && cls != "memory-kept") return;  // what else may be wrong is for the other properties
        c.fail(cls, where + ": " + msg);
    }

    template <class F>
    int call(size_t n, const char *phase, F f) {
        g_phase = phase;
        cur_cpu = &CPUS[nodes[n].cpu];
        cur_image = nodes[n].image;
        mem::count = 0;
        mem::failed = 0;
        scribble(u8(pat ^ 0x36));
        void *room = alloca(16 + mem::shift);
        asm volatile("" : : "r"(room) : "memory");
        mem::in_node = true;
        int r = f();
        mem::in_node = false;
        mem::fail_at = -1;
        if (mem::overrun && !c.r.bad) fail("memory-overrun", std::string("memory around a block was overwritten (seen while ") + phase + ")");
        mem::overrun = false;
        g_phase = "between calls";
        return r;
    }
    static void sink(void *x, const u8 *d, size_t n) {
        bool s = mem::in_node;
        mem::in_node = false;
        Bytes *b = (Bytes *)x;
        b->insert(b->end(), d, d + n);
        mem::in_node = s;
    }
    const TypeOps *op(size_t n, size_t s) { return ops[n][s]; }
    void *create(size_t n, size_t s) {
        int rc = 0;
        void *r = nullptr;
        call(n, "creating an object", [&] { r = op(n, s)->create(&rc); return rc; });
        return r;
    }
    void destroy(size_t n, size_t s, void *o) {
        if (o) call(n, "destroying an object", [&] { op(n, s)->destroy(o); return 0; });
    }
    // every payload lies in a block of exactly its size
    int decode(size_t n, size_t s, void *o, const Bytes &b) {
        std::unique_ptr<u8, void (*)(void *)> q((u8 *)malloc(b.size() ? b.size() : 1), free);
        if (!b.empty()) memcpy(q.get(), b.data(), b.size());
        const u8 *at = b.empty() ? q.get() + 1 : q.get();  // an empty range at the very end of a block
        return call(n, "decoding", [&] { return op(n, s)->decode(o, at, b.size()); });
    }
    int encode(size_t n, size_t s, const void *o, Bytes &b) {
        b.clear();
        return call(n, "encoding", [&] { return op(n, s)->encode(o, sink, &b); });
    }
    int root(size_t n, size_t s, const void *o, model::Chunk &r) {
        u8 t[32] = {};
        int rc = call(n, "hashing", [&] { return op(n, s)->root(o, t); });
        memcpy(r.data(), t, 32);
        return rc;
    }
    int equal(size_t n, size_t s, const void *a, const void *b, int &eq) {
        return call(n, "comparing", [&] { return op(n, s)->equal(a, b, &eq); });
    }
    static std::string rcs(int rc) {
        static const char *const t[] = {"false", "success", "bad_alloc", "an exception", "a foreign exception"};
        return t[rc];
    }
    std::string tn(size_t s) { return topic[s].name; }

    // what the simulation knows about an object, checked against the real one
    // need: 1 encoding, 2 root, 4 self comparison
    void observe(size_t n, size_t s, Obj &o, int need) {
        if (!o.known || c.r.bad) return;
        if (need & 1) {
            Bytes b, want = model::enc(topic[s].ty, *o.known);
            int rc = encode(n, s, o.p, b);
            evb(20, b);
            if (rc != R_TRUE) return fail("encode-failed", "encoding a " + tn(s) + " reported " + rcs(rc));
            if (b != want) return fail("wrong-encoding", "a " + tn(s) + " encodes as " + hexs(b) + ", its value is " + hexs(want));
        }
        if (need & 2) {
            model::Chunk r, want = model::root(topic[s].ty, *o.known);
            int rc = root(n, s, o.p, r);
            ev(21, r[0], r[1], r[31]);
            if (rc != R_TRUE) return fail("hash-failed", "hashing a " + tn(s) + " reported " + rcs(rc));
            if (r != want) return fail("wrong-root", "CPU " + std::string(CPUS[nodes[n].cpu].name) + ": root of a " + tn(s) + " is " + hex(r.data(), 32) + ", SSZ says " + hex(want.data(), 32) + " for " +
                                                        hexs(model::enc(topic[s].ty, *o.known), 64));
        }
        if (need & 8) read_parts(n, s, o);
        if (c.r.bad) return;
        if (need & 4) {
            // an independent object given the same value must compare equal
            void *q = create(n, s);
            Bytes b = model::enc(topic[s].ty, *o.known);
            int rc = decode(n, s, q, b), eq = 0;
            if (rc != R_TRUE) fail("intact-rejected", "a fresh " + tn(s) + " refused an intact encoding " + hexs(b));
            else {
                equal(n, s, o.p, q, eq);
                ev(22, eq);
                if (eq != 1) fail("wrong-comparison", "a " + tn(s) + " holding the sent value compares " + (eq & 1 ? "equal and unequal" : "unequal") + " to a fresh object holding it");
            }
            destroy(n, s, q);
        }
    }
    // every part, element and conversion of the value, read through the public interface
    void read_parts(size_t n, size_t s, Obj &o) {
        Bytes want, got;
        bool seq = topic[s].ty->k == model::VEC || topic[s].ty->k == model::LIST;
        u64 len = seq ? o.known->v.size() : 0;
        std::vector<u64> ks;  // of a long one only some elements
        if (len <= 16) for (u64 k = 0; k <= (seq ? 2 * len + 2 : 30); k++) ks.push_back(k);
        else ks = {0, 1, 2, 3, 4, len / 3, 2 + len / 2, len - 1, len, len + 1, len + 2, len + 3, len + len / 2, 2 * len, 2 * len + 1, 2 * len + 2};
        for (u64 k : ks) {
            if (c.r.bad) return;
            bool there = model::tell(topic[s].ty, topic[s].name, *o.known, k, want);
            got.clear();
            int rc = call(n, "reading a part", [&] { return op(n, s)->part(o.p, k, sink, &got); });
            if (rc != (there ? R_TRUE : R_FALSE)) return fail("part-unreadable", "reading part " + std::to_string(k) + " of a " + tn(s) + " reported " + rcs(rc));
            if (!there) break;
            evb(23, got);
            c.stat("probe_part_read");
            if (got != want) return fail("wrong-part", "part " + std::to_string(k) + " of a " + tn(s) + " reads as " + hexs(got, 64) + ", its value is " + hexs(want, 64));
        }
    }
    int cpu_for(u64 k) {
        for (size_t i = 0; i < NCPU; i++) {
            size_t j = (k + i) % NCPU;
            if (can_simulate(CPUS[j])) return j;
        }
        return 0;
    }
    void boot(size_t n, u64 cpu) {
        nodes[n].start(p.k("preset"), cpu_for(cpu));
        ops[n].clear();
        for (auto &t : topic) ops[n].push_back(nodes[n].ops(t.name));
        obj[n].assign(topic.size(), {});
        for (size_t s = 0; s < topic.size(); s++)
            for (int w = 0; w < 2; w++) {
                obj[n][s][w].p = create(n, s);
                obj[n][s][w].known = model::def(topic[s].ty);
            }
        c.state(mix(0xc, nodes[n].cpu));
    }
    void unload(size_t n) {
        if (!nodes[n].h) return;
        for (size_t s = 0; s < topic.size(); s++)
            for (int w = 0; w < 2; w++) {
                destroy(n, s, obj[n][s][w].p);
                obj[n][s][w].p = nullptr;
            }
        nodes[n].stop();
    }
    // hand bytes to an object; applies the decoding oracle of the property being checked
    int deliver(size_t n, size_t s, int w, const Bytes &b, const char *what, bool checks = true) {
        Obj &o = obj[n][s][w];
        Val v;
        bool ok = model::dec(topic[s].ty, b.data(), b.size(), v);
        long bytes0 = mem::bytes;
        mem::peak = mem::bytes;
        mem::over_cap = false;
        long allowed = 16384 + 192 * (long)b.size() + 8 * (long)op(n, s)->object_size;
        if (prop == 4) mem::cap = allowed;
        int rc = decode(n, s, o.p, b);
        mem::cap = 0;
        ev(30, rc, s, b.size());
        c.state(mix(mix(0xd, s < 4 ? p.k(("t" + std::to_string(s)).c_str()) : 0), mix(rc, ok), what[0] * 256 + what[1]));
        shape(30, rc, ok);
        if (rc == R_TRUE) o.known = ok ? std::optional<Val>(v) : std::nullopt;
        else o.known.reset();
        if (rc == R_TRUE) c.stat("probe_payload_accepted");
        else c.stat("probe_payload_rejected");
        if (!checks || c.r.bad) return rc;
        bool intact = ok;
        if (prop == 4) {
            if (mem::over_cap || mem::peak - bytes0 > allowed)
                fail("allocation-out-of-proportion", "decoding " + std::to_string(b.size()) + " bytes into a " + tn(s) + " took " + std::to_string(mem::over_cap ? mem::big : mem::peak - bytes0) + " bytes");
            else if (rc == R_TRUE && !ok)
                fail("misread", std::string("a ") + tn(s) + " accepted a payload that is no canonical encoding (" + what + "): " + hexs(b));
            else if (rc != R_TRUE && ok)
                fail("intact-rejected", std::string("a ") + tn(s) + " refused a canonical encoding (" + rcs(rc) + ", " + what + "): " + hexs(b));
            else if (rc == R_OTHER || rc == R_OOM) fail("decode-threw", "decoding reported " + rcs(rc));
            else if (rc == R_TRUE) {
                observe(n, s, o, 9);
                if (!c.r.bad) safe_use(n, s, o.p);
            }
        } else if (intact && rc != R_TRUE && prop != 10 && prop != 3)
            fail("intact-rejected", std::string("a ") + tn(s) + " refused an intact encoding (" + rcs(rc) + ", " + what + "): " + hexs(b));
        else if (prop == 3 && intact && rc != R_TRUE)
            c.stat("probe_intact_rejected");
        return rc;
    }
    // encode, hash, copy, print: must be safe; results only logged
    void safe_use(size_t n, size_t s, void *o) {
        Bytes b, b2, t;
        model::Chunk r;
        int rc = 0;
        encode(n, s, o, b);
        evb(40, b);
        root(n, s, o, r);
        ev(41, r[0], r[5], r[31]);
        void *q = nullptr;
        call(n, "copying", [&] { q = op(n, s)->clone(o, &rc); return rc; });
        if (q) {
            encode(n, s, q, b2);
            if (b2 != b) fail("copy-differs", "a copy of a " + tn(s) + " encodes as " + hexs(b2) + ", the original as " + hexs(b));
            destroy(n, s, q);
        }
        if (op(n, s)->print) call(n, "printing", [&] { return op(n, s)->print(o, sink, &t); });
        if (op(n, s)->hex_out) call(n, "converting to hexadecimal", [&] { return op(n, s)->hex_out(o, sink, &t); });
        evb(42, t);
        c.stat("probe_used_after_accept");
    }

    void publish(size_t s, u64 seed, long budget) {
        Topic &t = topic[s];
        Rng r(seed);
        t.prev = t.bytes;
        if (r.chance(1, 5) && !t.bytes.empty()) {
            for (int i = 0; i < 2; i++) model::mutate(t.ty, t.pub, r);
        } else if (budget >= 200 && !t.ty->fixed && r.chance(1, 10)) t.pub = model::gen_full(t.ty, r, std::min(40000l, budget * (prop == 9 ? 6 : 20))), c.stat("probe_list_filled");
        else t.pub = model::gen(t.ty, r, budget);
        t.bytes = model::enc(t.ty, t.pub);
        if (t.bytes.size() > 65535) c.stat("probe_large_payload");
        ev(1, s, t.bytes.size());
    }
    Bytes damaged(size_t s, u64 fate, u64 fseed, const char **what) {
        Topic &t = topic[s];
        const Bytes &other = fseed % 3 ? t.prev : topic[fseed / 3 % topic.size()].bytes;
        Bytes b = model::damage(t.ty, t.pub, fate, fseed, other, what);
        if (fate) fault((std::string("payload_") + model::fate_name(fate)).c_str());
        return b;
    }
    void run_net(u64 dt) {
        u64 end = now + dt;
        for (;;) {
            size_t best = net.size();
            for (size_t i = 0; i < net.size(); i++)
                if (net[i].at <= end && (best == net.size() || net[i].at < net[best].at || (net[i].at == net[best].at && net[i].seq < net[best].seq))) best = i;
            if (best == net.size()) break;
            Message m = net[best];
            net.erase(net.begin() + best);
            now = std::max(now, m.at);
            where = "delivery to node " + std::to_string(m.node);
            deliver(m.node, m.slot, 0, m.data, m.what.c_str());
            check_slot(m.node, m.slot, 0);
            if (c.r.bad) return;
        }
        now = end;
    }
    void check_slot(size_t n, size_t s, int w) {
        Obj &o = obj[n][s][w];
        switch (prop) {
            case 3: observe(n, s, o, 2); break;
            case 5: observe(n, s, o, 15); break;
            case 8: observe(n, s, o, 15); break;
            case 6: observe(n, s, o, 7); break;
            case 9: observe(n, s, o, 3); break;
            case 4: observe(n, s, o, 9); break;
            case 12: observe(n, s, o, 15); break;
            case 10: break;
        }
        if ((prop == 8 || prop == 5 || prop == 12) && !o.known && !c.r.bad) safe_use(n, s, o.p);
    }
    void crash(size_t n, u64 cpu, u64 seed) {
        Rng r(seed);
        unload(n);
        fault("crash_restart");
        for (size_t s = 0; s < topic.size(); s++) {
            Disk &d = disk[n][s];
            for (auto &w : d.pending) {
                switch (r.below(4)) {
                    case 0: fault("write_lost"); break;
                    case 1: d.durable = w; d.present = true; break;
                    case 2: d.durable.assign(w.begin(), w.begin() + r.below(w.size() + 1)); d.present = true; fault("write_torn"); break;
                    case 3: {
                        size_t k = r.below(w.size() + 1);
                        Bytes x(w.begin(), w.begin() + k);
                        if (d.durable.size() > k) x.insert(x.end(), d.durable.begin() + k, d.durable.end());
                        d.durable = x;
                        d.present = true;
                        fault("write_torn");
                        break;
                    }
                }
            }
            d.pending.clear();
        }
        int before = nodes[n].cpu;
        boot(n, cpu);
        if (nodes[n].cpu != before) fault("migrated_to_other_cpu");
        for (size_t s = 0; s < topic.size() && !c.r.bad; s++)
            if (disk[n][s].present) {
                where = "restart of node " + std::to_string(n) + " from its snapshot";
                deliver(n, s, 0, disk[n][s].durable, "snapshot");
                check_slot(n, s, 0);
            }
    }
    void tree(size_t n, u64 seed) {
        Rng r(seed);
        static const u64 edge[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 257, 1000, 1023, 1025};
        u64 k = r.chance(1, 40) ? r.range(1000, 6000) : r.chance(2, 3) ? edge[r.below(r.chance(3, 4) ? 13 : 25)] : r.range(1, 80);
        bool bytes = r.chance(1, 3);
        Bytes d(bytes ? (r.chance(1, 8) ? 0 : k * 32 - r.below(32)) : k * 32);
        r.fill(d.data(), d.size());
        if (r.chance(1, 4)) std::fill(d.begin(), d.end(), 0);
        if (d.size() >= 64 && r.chance(1, 3)) {  // chunks, pairs and subtrees that repeat; zero chunks among others
            u64 how = r.below(4), step = 32ull << r.below(5);
            for (size_t i = 32; i + 32 <= d.size(); i += 32) switch (how) {
                    case 0: if (r.chance(1, 2)) memcpy(&d[i], &d[i - 32], 32); break;
                    case 1: if (i >= step) memcpy(&d[i], &d[i - step], 32); break;
                    case 2: if (r.chance(1, 2)) memset(&d[i], 0, 32); break;
                    default: if (i >= d.size() / 2) memset(&d[i], 0, 32);
                }
        }
        u64 chunks = std::max<u64>(1, (d.size() + 31) / 32);
        u64 limit;
        switch (r.below(8)) {
            case 0: limit = 0; break;
            case 1: limit = chunks; break;
            case 2: limit = chunks + 1; break;
            case 3: limit = chunks + r.below(100); break;
            case 4: limit = 1ull << r.below(64); break;
            case 5: limit = (1ull << r.below(64)) + r.below(3) - 1; break;
            case 6: limit = ~0ull - r.below(3); break;
            default: limit = r.next() >> r.below(64);
        }
        if (limit && limit < chunks) limit = chunks;
        bool mixin = r.chance(1, 2);
        u64 len = r.chance(1, 2) ? r.below(3000) : r.next() >> r.below(64);
        model::Chunk want = model::merkle(model::pack(d.empty() ? Bytes(32, 0) : d), limit ? limit : chunks);
        if (mixin) want = model::mixin(want, len);
        u8 got[32] = {};
        int rc = call(n, "building a hash tree", [&] { return nodes[n].api->tree(d.data(), d.size(), !bytes, limit, mixin, len, got); });
        ev(50, rc, got[0], got[31]);
        shape(50, k, limit);
        c.state(mix(mix(0x7, chunks < 70 ? chunks : 70), model::ceil_log2(limit), nodes[n].cpu));
        c.stat("probe_hash_tree");
        if (rc != R_TRUE) fail("tree-failed", "hash tree of " + std::to_string(chunks) + " chunks, limit " + std::to_string(limit) + " reported " + rcs(rc));
        else if (memcmp(got, want.data(), 32)) fail("wrong-root", "CPU " + std::string(CPUS[nodes[n].cpu].name) + ": hash tree of " + std::to_string(chunks) + " chunks, limit " + std::to_string(limit) + (mixin ? ", length " + std::to_string(len) : "") + " has root " +
                                                               hex(got, 32) + ", SSZ says " + hex(want.data(), 32));
    }
    void copy(size_t n, size_t s, u64 how) {
        auto &o = obj[n][s];
        int rc = R_TRUE;
        switch (how) {
            case 0: rc = call(n, "assigning", [&] { return op(n, s)->assign(o[1].p, o[0].p); }); if (rc == R_TRUE) o[1].known = o[0].known; break;
            case 1: rc = call(n, "assigning", [&] { return op(n, s)->assign(o[0].p, o[1].p); }); if (rc == R_TRUE) o[0].known = o[1].known; break;
            case 2: rc = call(n, "assigning to itself", [&] { return op(n, s)->assign(o[0].p, o[0].p); }); break;
            case 3: {
                void *q = nullptr;
                call(n, "copying", [&] { q = op(n, s)->clone(o[0].p, &rc); return rc; });
                if (q) { destroy(n, s, o[1].p); o[1].p = q; o[1].known = o[0].known; }
                break;
            }
            case 4: {  // move assignment from a temporary copy
                void *q = nullptr;
                call(n, "copying", [&] { q = op(n, s)->clone(o[0].p, &rc); return rc; });
                if (q) {
                    rc = call(n, "moving", [&] { return op(n, s)->move(o[1].p, q); });
                    if (rc == R_TRUE) o[1].known = o[0].known;
                    destroy(n, s, q);
                }
                break;
            }
            case 5: {  // move out and reuse the source
                rc = call(n, "moving", [&] { return op(n, s)->move(o[1].p, o[0].p); });
                if (rc == R_TRUE) { o[1].known = o[0].known; o[0].known.reset(); }
                break;
            }
        }
        ev(60, how, rc);
        shape(60, how, rc);
        if (rc != R_TRUE) fail("copy-failed", "copying a " + tn(s) + " reported " + rcs(rc));
        for (int w = 0; w < 2; w++) check_slot(n, s, w);
    }
    void poke(size_t n, size_t s, int w, u64 v) {
        Obj &o = obj[n][s][w];
        int rc = call(n, "changing a field", [&] { return op(n, s)->poke(o.p, v); });
        ev(61, rc);
        if (rc != R_TRUE) return;
        fault("field_updated_in_place");
        if (o.known) {
            Bytes b = model::enc(topic[s].ty, *o.known);
            Val nv;
            if (b.size() < 8) { o.known.reset(); return; }
            for (int i = 0; i < 8; i++) b[i] = u8(v >> (8 * i));
            if (model::dec(topic[s].ty, b.data(), b.size(), nv)) o.known = nv;
            else o.known.reset();
        }
        for (int k = 0; k < 2; k++) check_slot(n, s, k);
    }
    void fresh(size_t n, size_t s) {
        Obj o;
        o.p = create(n, s);
        if (!o.p) return fail("create-failed", "creating a " + tn(s));
        o.known = model::def(topic[s].ty);
        shape(62, s);
        c.stat("probe_fresh_object");
        Bytes b;
        observe(n, s, o, 11);
        if (!c.r.bad) {
            void *q = create(n, s);
            int eq = 0;
            equal(n, s, o.p, q, eq);
            ev(62, eq);
            if (eq != 1) fail("wrong-default", "two new objects of " + tn(s) + " do not compare equal");
            destroy(n, s, q);
            if (!c.r.bad) safe_use(n, s, o.p);
        }
        if (c.r.bad && c.r.cls.rfind("wrong-", 0) == 0) c.r.cls = "wrong-default";
        destroy(n, s, o.p);
    }

    // ---- comparison (C10) ----
    void compare(size_t n, size_t s, const Obj &a, const Obj &b, const char *what) {
        Bytes x, y;
        model::Chunk rx, ry;
        int e1 = 0, e2 = 0;
        encode(n, s, a.p, x);
        encode(n, s, b.p, y);
        root(n, s, a.p, rx);
        root(n, s, b.p, ry);
        equal(n, s, a.p, b.p, e1);
        equal(n, s, b.p, a.p, e2);
        bool same = x == y;
        ev(63, same, e1, e2);
        shape(63, same, s);
        c.stat(same ? "probe_compared_same" : "probe_compared_different");
        std::string t = std::string(what) + ": two " + tn(s) + " objects encoding as " + hexs(x, 48) + " and " + hexs(y, 48);
        if (e1 != (same ? 1 : 2) || e2 != (same ? 1 : 2))
            fail("comparison-lies", t + (same ? " (the same)" : " (different)") + " compare as == " + std::to_string(e1 & 1) + "/" + std::to_string(e2 & 1) + ", != " + std::to_string(e1 >> 1) + "/" + std::to_string(e2 >> 1) + " from the two sides");
        else if ((rx == ry) != same)
            fail("roots-lie", t + (same ? " have different roots" : " have the same root"));
        else if (a.known && b.known && (*a.known == *b.known) != same)
            fail("encodings-lie", t + ": their values are " + (same ? "different" : "the same"));
    }
    void diverge(size_t n, size_t s, u64 seed) {
        Topic &t = topic[s];
        Rng r(seed);
        Obj &a = obj[n][s][0], &b = obj[n][s][1];
        deliver(n, s, 0, t.bytes, "intact");
        Val v = t.pub;
        u64 k = r.below(8);
        if (k == 0) {  // same value
        } else if (k == 1) {
            long budget = 600;
            v = model::gen(t.ty, r, budget);
        } else {
            for (u64 i = r.chance(1, 6) ? 2 : 1; i--;) model::mutate(t.ty, v, r);
        }
        fault(k == 0 ? "replica_in_step" : k == 1 ? "replica_missed_update" : "single_leaf_divergence");
        deliver(n, s, 1, model::enc(t.ty, v), "intact");
        compare(n, s, a, b, "after divergence");
        if (c.r.bad) return;
        if (r.chance(1, 3)) {  // repair
            if (r.chance(1, 2)) copy(n, s, 0);
            else deliver(n, s, 1, t.bytes, "intact");
            compare(n, s, a, b, "after repair");
        }
    }

    // ---- allocation failures (C06) ----
    enum { O_ENCODE, O_ROOT, O_CLONE, O_EQUAL, O_HEXOUT, O_CREATE, O_TREE, O_ASSIGN, O_DECODE, O_HEXIN, O_MOVE, O_BADDECODE, O_N };
    static const char *oname(u64 o) {
        static const char *const t[] = {"encoding", "hashing", "copying", "comparing", "conversion to hexadecimal", "creation", "hash tree", "assignment", "decoding", "conversion from hexadecimal", "move assignment", "decoding a damaged payload"};
        return t[o];
    }
    // runs one operation; out = its observable result (empty if it failed)
    int attempt(u64 o, size_t n, size_t s, void *a, void *b, const Bytes &in, long at, long len, Bytes &out, long &allocs, long &failed) {
        out.clear();
        void *q = nullptr;
        u8 r[32];
        int eq = 0, rc = 0;
        const TypeOps *t = op(n, s);
        std::string text = "0x" + hex(in.data(), in.size());
        std::unique_ptr<u8, void (*)(void *)> blk((u8 *)malloc(in.size() ? in.size() : 1), free);
        if (!in.empty()) memcpy(blk.get(), in.data(), in.size());
        mem::fail_at = at;
        mem::fail_len = len;
        rc = call(n, oname(o), [&] {
            switch (o) {
                case O_ENCODE: return t->encode(a, sink, &out);
                case O_ROOT: return t->root(a, r);
                case O_CLONE: q = t->clone(a, &rc); return rc;
                case O_EQUAL: return t->equal(a, b, &eq);
                case O_HEXOUT: return t->hex_out(a, sink, &out);
                case O_CREATE: q = t->create(&rc); return rc;
                case O_TREE: return nodes[n].api->tree(blk.get(), in.size(), 0, 0, 1, 7, r);
                case O_ASSIGN: return t->assign(b, a);
                case O_DECODE: case O_BADDECODE: return t->decode(b, blk.get(), in.size());
                case O_HEXIN: return t->hex_in(b, text.data(), text.size());
                case O_MOVE: return t->move(b, a);
            }
            return int(R_OTHER);
        });
        allocs = mem::count;
        failed = mem::failed;
        if (rc == R_TRUE) {
            if (o == O_ROOT || o == O_TREE) out.assign(r, r + 32);
            if (o == O_EQUAL) out.assign(1, eq);
            if (o == O_CLONE || o == O_CREATE) encode(n, s, q, out);
            if (o == O_ASSIGN || o == O_DECODE || o == O_HEXIN || o == O_MOVE) encode(n, s, b, out);
        }
        if (q) destroy(n, s, q);
        return rc;
    }
    void oom(size_t n, size_t s, u64 o, u64 k, u64 len, u64 seed) {
        o %= O_N;
        const TypeOps *t = op(n, s);
        if ((o == O_HEXOUT && !t->hex_out) || (o == O_HEXIN && !t->hex_in)) o = O_ENCODE;
        Rng r(seed);
        void *a = obj[n][s][0].p, *b = obj[n][s][1].p;
        Bytes in = topic[s].bytes;
        bool good_in = true;
        if (o == O_BADDECODE) {
            const char *what;
            in = model::damage(topic[s].ty, topic[s].pub, 1 + r.below(model::F_N - 1), r.next(), topic[s].prev, &what);
            Val v;
            good_in = model::dec(topic[s].ty, in.data(), in.size(), v);
        }
        if (o == O_TREE) { in.resize(32 * r.range(1, 40)); r.fill(in.data(), in.size()); }
        bool mut = o >= O_ASSIGN;
        long allocs = 0, failed = 0;
        Bytes ref, out, src0, src1;
        std::string nm = std::string(oname(o)) + " of a " + tn(s);
        auto fresh_copy = [&](void *from) {
            void *q = nullptr;
            int rc = 0;
            call(n, "copying", [&] { q = t->clone(from, &rc); return rc; });
            return q;
        };
        encode(n, s, a, src0);
        // reference execution, which also creates anything the library creates once
        int rc0;
        {
            void *sa = o == O_MOVE ? fresh_copy(a) : a, *sb = mut ? fresh_copy(b) : b;
            rc0 = attempt(o, n, s, sa, sb, in, -1, 0, ref, allocs, failed);
            if (mut) destroy(n, s, sb);
            if (o == O_MOVE) destroy(n, s, sa);
        }
        if (rc0 != R_TRUE && (good_in && o != O_BADDECODE)) return fail("operation-failed", nm + " reported " + rcs(rc0) + " although memory was available");
        ev(70, o, allocs, rc0);
        if (allocs == 0) { c.stat("probe_operation_allocates_nothing"); return; }
        long at = k % allocs, live0 = mem::live;
        void *sa = o == O_MOVE ? fresh_copy(a) : a, *sb = mut ? fresh_copy(b) : b;
        int rc = attempt(o, n, s, sa, sb, in, at, len, out, allocs, failed);
        ev(71, rc, failed, at);
        shape(71, o * 1000 + at, s);
        c.state(mix(mix(0x6, o), at, p.k(("t" + std::to_string(s)).c_str())));
        if (failed) {
            fault("allocation_failed");
            if (len > 1) fault("allocation_burst");
        }
        std::string at_s = nm + " with allocation " + std::to_string(at) + " (burst " + std::to_string(len) + ") failing";
        if (failed && rc == R_TRUE && (rc0 != R_TRUE || out != ref)) fail("wrong-result-after-oom", at_s + " reported success with " + hexs(out) + " instead of " + hexs(ref));
        else if (failed && rc != R_TRUE && rc != R_OOM && rc != R_FALSE && rc != rc0) fail("wrong-report-of-oom", at_s + " was reported as " + rcs(rc));
        if (mut && !c.r.bad && failed) {  // the object must stay usable
            Bytes tmp;
            model::Chunk h;
            encode(n, s, sb, tmp);
            root(n, s, sb, h);
            int eq;
            equal(n, s, sb, sb, eq);
        }
        if (!c.r.bad && o != O_MOVE) {
            Bytes again;
            long x, y;
            int rc2 = attempt(o, n, s, sa, sb, in, -1, 0, again, x, y);
            ev(72, rc2);
            if (rc2 != rc0 || again != ref) fail("wrong-after-recovery", at_s + ": repeating it with memory available gave " + rcs(rc2) + " " + hexs(again) + " instead of " + rcs(rc0) + " " + hexs(ref));
        }
        if (mut) destroy(n, s, sb);
        if (o == O_MOVE) destroy(n, s, sa);
        if (!c.r.bad && mem::live > live0) {
            // memory kept for later use (a table built once, a buffer reused) is no leak: a leak comes with every failure
            const int REP = 24;
            int grew = 0;
            for (int i = 0; i < REP; i++) {
                long before = mem::live, x, y;
                Bytes tmp;
                void *ra = o == O_MOVE ? fresh_copy(a) : a, *rb = mut ? fresh_copy(b) : b;
                attempt(o, n, s, ra, rb, in, at, len, tmp, x, y);
                if (mut) destroy(n, s, rb);
                if (o == O_MOVE) destroy(n, s, ra);
                grew += mem::live > before;
            }
            c.stat("probe_memory_kept");
            if (!c.r.bad && grew == REP) fail("leak-after-oom", at_s + " leaves memory behind, every time");
        }
        encode(n, s, a, src1);
        if (!c.r.bad && src1 != src0) fail("argument-changed", at_s + " changed its read-only argument");
        // and one failure in the history of the long-lived object
        if (!c.r.bad && (o == O_ASSIGN || o == O_DECODE || o == O_BADDECODE || o == O_HEXIN)) {
            Obj &hist = obj[n][s][1];
            int rc3 = attempt(o, n, s, a, hist.p, in, at, len, out, allocs, failed);
            ev(73, rc3);
            hist.known.reset();
            if (rc3 == R_TRUE && !failed && o != O_BADDECODE) {
                Val v;
                if (model::dec(topic[s].ty, out.data(), out.size(), v)) hist.known = v;
            }
        }
        for (int w = 0; w < 2 && !c.r.bad; w++) check_slot(n, s, w);
    }

    // ---- text (C09) ----
    int yaml_out(size_t n, size_t s, const void *o, Bytes &t) {
        t.clear();
        return call(n, "writing text", [&] { return op(n, s)->yaml_out(o, sink, &t); });
    }
    int yaml_in(size_t n, size_t s, void *o, const Bytes &t) {
        std::unique_ptr<char, void (*)(void *)> q((char *)malloc(t.size() ? t.size() : 1), free);
        if (!t.empty()) memcpy(q.get(), t.data(), t.size());
        return call(n, "reading text", [&] { return op(n, s)->yaml_in(o, q.get(), t.size()); });
    }
    Bytes damage_text(const Bytes &t, const Bytes &other, u64 fate, Rng &r, const char **what) {
        Bytes b = t;
        u64 n = b.size();
        auto lines = [](const Bytes &x) {
            std::vector<Bytes> l(1);
            for (u8 ch : x) { l.back().push_back(ch); if (ch == '\n') l.push_back({}); }
            if (l.back().empty() && l.size() > 1) l.pop_back();
            if (!l.back().empty() && l.back().back() != '\n') l.back().push_back('\n');
            return l;
        };
        auto join = [](const std::vector<Bytes> &l) { Bytes o; for (auto &x : l) o.insert(o.end(), x.begin(), x.end()); return o; };
        static const char *const names[] = {"text_truncated", "text_garbled", "text_spliced", "text_lines", "text_scalar", "text_high_bytes", "text_hex"};
        fate %= 7;
        *what = names[fate];
        switch (fate) {
            case 0: b.resize(r.below(n + 1)); break;
            case 1: for (u64 k = r.range(1, 4); n && k--;) b[r.below(n)] = r.chance(1, 2) ? r.next() : r.pick<u8>({'0', 'x', ':', ' ', '\n', '-', '[', '{', '"', '#', '&', '*', '~', 'g', 'Z', '!'}); break;
            case 2: { u64 cut = r.below(n + 1), oc = r.below(other.size() + 1); b.resize(cut); b.insert(b.end(), other.begin() + oc, other.end()); break; }
            case 3: {
                auto l = lines(b);
                size_t i = r.below(l.size());
                switch (r.below(4)) {
                    case 0: l.erase(l.begin() + i); break;
                    case 1: { Bytes x = l[i]; u64 k = r.pick<u64>({1, 2, 3, 20, 130}); if (x.size() > 400) k = 3; l.insert(l.begin() + i, k, x); break; }
                    case 2: std::swap(l[i], l[r.below(l.size())]); break;
                    case 3: {  // repeat a block of lines
                        size_t j = std::min(l.size(), i + 1 + r.below(12));
                        std::vector<Bytes> blk(l.begin() + i, l.begin() + j);
                        for (u64 k = r.range(1, 18); k-- && l.size() < 3000;) l.insert(l.begin() + j, blk.begin(), blk.end());
                        break;
                    }
                }
                b = join(l);
                break;
            }
            case 4: {
                static const char *const tok[] = {"", "0x", "0xz", "0xzz", "0x0", "0x00", "0x01", "0x0000", "-1", "99999999999999999999", "18446744073709551616", "~", "null", "[]", "{}", "true", "2", "1.5", "[1, 2, 3]", "{a: 1}", "!!binary 00", "0xFF", "0Xff", "x", "&a 1", "*a"};
                auto l = lines(b);
                size_t i = r.below(l.size());
                auto &x = l[i];
                size_t c2 = std::string(x.begin(), x.end()).find(": ");
                size_t cut = c2 == std::string::npos ? (x.size() > 2 && x[0] == '-' ? 2 : 0) : c2 + 2;
                const char *z = tok[r.below(sizeof tok / sizeof *tok)];
                x.resize(std::min(cut, x.size()));
                x.insert(x.end(), z, z + strlen(z));
                x.push_back('\n');
                b = join(l);
                break;
            }
            case 5: {  // bytes of a multi-byte character inside a scalar
                for (u64 k = r.range(1, 3); n && k--;) {
                    size_t at = r.below(b.size());
                    static const u8 seqs[][2] = {{0xc3, 0xa9}, {0xc2, 0x80}, {0xdf, 0xbf}};
                    const u8 *q = seqs[r.below(3)];
                    if (r.chance(1, 2) && at + 2 <= b.size()) { b[at] = q[0]; b[at + 1] = q[1]; }
                    else b.insert(b.begin() + at, q, q + 2);
                }
                break;
            }
            case 6: {  // lengthen, shorten or change a hexadecimal string
                std::string x(b.begin(), b.end());
                std::vector<size_t> at;
                for (size_t i = x.find("0x"); i != std::string::npos; i = x.find("0x", i + 1)) at.push_back(i);
                if (at.empty()) break;
                size_t i = at[r.below(at.size())] + 2, e = i;
                while (e < x.size() && isxdigit((u8)x[e])) e++;
                switch (r.below(6)) {
                    case 0: x.insert(e, std::string(2 * r.range(1, 40), r.pick<char>({'0', '1', 'f'}))); break;
                    case 1: if (e > i) x.erase(i + r.below(e - i), 1 + r.below(4)); break;
                    case 2: x.erase(i, e - i); break;
                    case 3: if (e - i >= 2) { x[e - 1] = '0'; x[e - 2] = '0'; } break;
                    case 4: if (e > i) x[i + r.below(e - i)] = r.pick<char>({'g', 'G', '-', ' ', '\x7f', '_'}); break;
                    case 5: x.insert(e, std::string(2 * r.range(200, 700), r.pick<char>({'1', 'f'}))); break;
                }
                b.assign(x.begin(), x.end());
                break;
            }
        }
        return b;
    }
    void text(size_t n, size_t s, u64 seed, u64 fate, u64 target) {
        Topic &t = topic[s];
        Rng r(seed);
        Bytes txt, other, enc0 = t.bytes;
        // an object that holds the published value writes its text
        void *src = create(n, s);
        if (decode(n, s, src, t.bytes) != R_TRUE) {
            destroy(n, s, src);
            return;
        }
        int rc = yaml_out(n, s, src, txt);
        destroy(n, s, src);
        ev(80, rc, txt.size());
        if (rc != R_TRUE) return fail("text-failed", "writing the text of a " + tn(s) + " reported " + rcs(rc));
        Obj &o = obj[n][s][target & 1];
        if (fate >= 8) {  // text by somebody else, in the spelling of the specification
            std::string x;
            Rng r1(r.next()), r2(r1);
            model::spell(t.ty, t.pub, r1, nullptr, x);
            if (fate == 9) {
                model::Mut m, a;
                std::string y;
                model::spell(t.ty, t.pub, r2, &m, y);
                a.target = r.below(m.seen);
                a.seed = r.next();
                Rng r3(r.next());
                y.clear();
                model::spell(t.ty, t.pub, r3, &a, y);
                if (y.size() > 200000) return;
                rc = yaml_in(n, s, o.p, Bytes(y.begin(), y.end()));
                ev(83, rc);
                shape(83, rc, a.target);
                c.state(mix(mix(0x99, rc), p.k(("t" + std::to_string(s)).c_str())));
                fault("text_denotes_nothing");
                o.known.reset();
                if (rc == R_OTHER) return fail("foreign-exception", "text of a " + tn(s) + " raised something that is no standard exception");
                if (rc == R_TRUE) return fail("text-misread", "text that denotes no " + tn(s) + " (" + a.what + ") was accepted: " + y.substr(0, 500));
                safe_use(n, s, o.p);
                if (!c.r.bad && r.chance(1, 2)) return;
                if (c.r.bad) return;
            }
            if (x.size() > 200000) return;
            rc = yaml_in(n, s, o.p, Bytes(x.begin(), x.end()));
            ev(84, rc);
            if (rc != R_TRUE) return fail("spec-text-refused", "a " + tn(s) + " refused the text of a value (" + rcs(rc) + "): " + x.substr(0, 500));
            c.stat("probe_spec_text_read");
            o.known = t.pub;
            observe(n, s, o, 7);
            if (c.r.bad) c.r.msg += " after reading the text " + x.substr(0, 500);
            return;
        }
        if (fate) {
            yaml_out(n, s, obj[n][s][1 - (target & 1)].p, other);
            const char *what;
            Bytes bad = damage_text(txt, other, fate - 1, r, &what);
            if (r.chance(1, 5)) { const char *w2; bad = damage_text(bad, txt, r.below(7), r, &w2); }
            if (bad.size() > 60000) bad.resize(60000);
            fault(what);
            rc = yaml_in(n, s, o.p, bad);
            ev(81, rc);
            shape(81, rc, fate);
            c.state(mix(mix(0x9, fate), rc, p.k(("t" + std::to_string(s)).c_str())));
            c.stat(rc == R_TRUE ? "probe_text_accepted" : rc == R_FALSE ? "probe_text_refused" : "probe_text_exception");
            o.known.reset();
            if (rc == R_OTHER) return fail("foreign-exception", "damaged text of a " + tn(s) + " raised something that is no standard exception");
            if (rc == R_TRUE) {
                Bytes e;
                int rc2 = encode(n, s, o.p, e);
                Val v;
                if (rc2 != R_TRUE || !model::dec(t.ty, e.data(), e.size(), v))
                    return fail("not-canonical-after-text", "damaged text (" + std::string(what) + ") was accepted as a " + tn(s) + " whose encoding is outside its capacities or not canonical: " + hexs(e) + " text " + std::string(bad.begin(), bad.begin() + std::min<size_t>(bad.size(), 300)));
            }
            safe_use(n, s, o.p);
            if (!c.r.bad && r.chance(1, 2)) return;
        }
        // intact text into the same object
        rc = yaml_in(n, s, o.p, txt);
        ev(82, rc);
        if (rc != R_TRUE) return fail("intact-text-refused", "a " + tn(s) + " refused its own text (" + rcs(rc) + "): " + std::string(txt.begin(), txt.begin() + std::min<size_t>(txt.size(), 400)));
        c.stat("probe_text_round_trip");
        o.known = t.pub;
        observe(n, s, o, 7);
        if (c.r.bad) c.r.msg += " after reading its text " + std::string(txt.begin(), txt.begin() + std::min<size_t>(txt.size(), 400));
    }

    void go(const Step &st) {
        size_t N = nodes.size(), S = topic.size();
        size_t n = st.arg(0) % N, s = st.arg(1) % S;
        where = st.op + " at node " + std::to_string(n);
        if (st.op == "pub") publish(st.arg(0) % S, st.arg(1), st.arg(2));
        else if (st.op == "dlv") {
            const char *what;
            Bytes b = damaged(s, st.arg(3) % model::F_N, st.arg(4), &what);
            where = std::string("delivery (") + what + ") to node " + std::to_string(n);
            deliver(n, s, st.arg(2) & 1, b, what);
            check_slot(n, s, st.arg(2) & 1);
        } else if (st.op == "send") {  // n s mode fate seed delay
            const char *what = "intact";
            u64 mode = st.arg(2);
            if (mode == 1) { fault("message_lost"); ev(2); return; }
            Bytes b = mode == 3 ? topic[s].prev : damaged(s, st.arg(3) % model::F_N, st.arg(4), &what);
            if (mode == 3) { fault("message_stale"); what = "stale"; }
            u64 d = st.arg(5);
            if (d > 1000) fault("message_delayed");
            net.push_back({now + d, seq++, n, s, b, what});
            if (mode == 2) { fault("message_duplicated"); net.push_back({now + d + st.arg(4) % 5000, seq++, n, s, b, what}); }
            ev(2, b.size(), d);
        } else if (st.op == "run") run_net(st.arg(0));
        else if (st.op == "snap") {
            Bytes b;
            Obj &o = obj[n][s][0];
            if (!o.known) return;  // a node writes only what it holds validly
            if (encode(n, s, o.p, b) != R_TRUE) return;
            Disk &d = disk[n][s];
            if (st.arg(2) & 1) { d.pending.clear(); d.durable = b; d.present = true; }
            else d.pending.push_back(b);
            ev(3, b.size(), st.arg(2));
        } else if (st.op == "rot") {
            Disk &d = disk[n][s];
            Rng r(st.arg(2));
            if (d.durable.empty()) return;
            for (u64 k = r.range(1, 3); k--;) d.durable[r.below(d.durable.size())] ^= 1 << r.below(8);
            fault("disk_bit_rot");
            ev(4);
        } else if (st.op == "crash") { crash(n, st.arg(1), st.arg(2)); ev(5, nodes[n].cpu); shape(5, nodes[n].cpu); }
        else if (st.op == "tree") tree(n, st.arg(1));
        else if (st.op == "copy") copy(n, s, st.arg(2) % 6);
        else if (st.op == "poke") poke(n, s, st.arg(2) & 1, st.arg(3));
        else if (st.op == "fresh") fresh(n, s);
        else if (st.op == "check") for (int w = 0; w < 2; w++) check_slot(n, s, w);
        else if (st.op == "cmp") compare(n, s, obj[n][s][0], obj[n][s][1], "as they are");
        else if (st.op == "div") diverge(n, s, st.arg(2));
        else if (st.op == "oom") oom(n, s, st.arg(2), st.arg(3), st.arg(4), st.arg(5));
        else if (st.op == "txt") text(n, s, st.arg(2), st.arg(3), st.arg(4));
        shape(mix(st.op[0], st.op[1]), s);
    }
    // After every "hop" the work goes on on a thread of its own, which ends at the next hop; what it made lives on.
    void go_all(bool stop) {
        static Sim *sim;
        static size_t at;
        static bool until_bad;
        sim = this;
        at = 0;
        until_bad = stop;
        static auto part = [] {
            auto &S = sim->p.steps;
            for (; at < S.size() && S[at].op != "hop"; at++) {
                sim->go(S[at]);
                if (until_bad && sim->c.r.bad) return;
            }
        };
        part();
        while (at < p.steps.size() && !(stop && c.r.bad)) {
            at++;
            c.stat("fault_thread_ended");
            ev(81, at);
            pthread_t t;
            if (pthread_create(&t, 0, [](void *) -> void * {
                    static char stk[1 << 16];
                    stack_t ss{};
                    ss.ss_sp = stk;
                    ss.ss_size = sizeof stk;
                    sigaltstack(&ss, 0);
                    part();
                    g_phase = "the end of a thread";
                    mem::in_node = true;
                    sim::run_own_tls_dtors();
                    mem::in_node = false;
                    g_phase = "between calls";
                    ss.ss_flags = SS_DISABLE;
                    sigaltstack(&ss, 0);
                    return nullptr;
                }, 0)) abort();
            pthread_join(t, 0);
        }
    }
    // One round of C12: the same objects, the same work and the same faults, and then nothing is left.
    struct Held { long blocks, bytes; };
    Held round() {
        now = 0;
        for (size_t s = 0; s < topic.size(); s++) {
            Topic &t = topic[s];
            t.pub = model::def(t.ty);
            t.bytes = t.prev = model::enc(t.ty, t.pub);
            t.root.reset();
            for (int w = 0; w < 2; w++) {
                obj[0][s][w].p = create(0, s);
                obj[0][s][w].known = t.pub;
            }
        }
        go_all(false);
        for (size_t s = 0; s < topic.size(); s++)
            for (int w = 0; w < 2; w++) {
                destroy(0, s, obj[0][s][w].p);
                obj[0][s][w].p = nullptr;
            }
        c.stat("probe_round");
        return {mem::live, mem::bytes};
    }
    void rounds() {
        Held last{0, 0};
        u64 done = 0;
        auto grew = [&](u64 upto) {
            Held h = last;
            while (done < upto) h = round(), done++;
            if (upto > 2) ev(80, h.blocks - last.blocks, h.bytes - last.bytes);
            bool g = h.bytes > last.bytes || h.blocks > last.blocks;
            last = h;
            return g;
        };
        for (size_t s = 0; s < topic.size(); s++)
            for (int w = 0; w < 2; w++) {
                destroy(0, s, obj[0][s][w].p);
                obj[0][s][w].p = nullptr;
            }
        // Tables built once and buffers kept for reuse end to grow; what is left behind every time does not.
        grew(1), grew(2);
        Held start = last;
        if (!grew(4) || !grew(8)) return;
        c.stat("probe_growth_followed");
        for (u64 k = 16; k <= 256; k *= 2)
            if (!grew(k)) return;
        where = "256 rounds of the same work";
        fail("memory-kept", "with every object gone the node holds " + std::to_string(last.bytes - start.bytes) + " bytes in " + std::to_string(last.blocks - start.blocks) + " blocks more than after 2 rounds, and more after every doubling of the rounds (a " +
             tn(0) + (topic.size() > 1 ? " and a " + tn(1) : "") + ")");
    }
    void exec(u8 pattern, size_t shift = 0) {
        mem::shift = shift;
        pat = pattern;
        mem::pat = pattern;
        mem::poison = true;
        size_t N = p.k("nodes", 1), S = p.k("slots", 1);
        nodes.resize(N);
        ops.resize(N);
        obj.resize(N);
        disk.assign(N, std::vector<Disk>(S));
        for (size_t s = 0; s < S; s++) {
            Topic t;
            u64 ti = p.k(("t" + std::to_string(s)).c_str()) % model::NTYPES;
            t.name = model::TYPE_NAMES[ti];
            t.ty = const_cast<model::Schema &>(sch).get(t.name);
            t.pub = model::def(t.ty);
            t.bytes = t.prev = model::enc(t.ty, t.pub);
            topic.push_back(t);
        }
        where = "start";
        for (size_t n = 0; n < N; n++) boot(n, p.k(("cpu" + std::to_string(n)).c_str()));
        if (prop == 12) rounds();
        else go_all(true);
        if (!c.r.bad && (prop == 5 || prop == 3 || prop == 8)) {  // faults stop: one intact delivery of everything must bring every replica back
            net.clear();
            for (size_t n = 0; n < N && !c.r.bad; n++)
                for (size_t s = 0; s < S && !c.r.bad; s++) {
                    where = "final intact delivery to node " + std::to_string(n);
                    deliver(n, s, 0, topic[s].bytes, "intact");
                    check_slot(n, s, 0);
                }
            c.stat("probe_converged");
        }
        for (size_t n = 0; n < N; n++) unload(n);
        c.stat("sim_ms", now);
        if (faults) c.r.nontrivial = true;
    }
};

struct FWorld : World {
    model::Schema minimal{false}, mainnet{true};
    FWorld() {
        probe_host();
        load_image(0, getenv("SIM_NODE_MINIMAL"), getenv("SIM_ISA_MINIMAL"));
        load_image(1, getenv("SIM_NODE_MAINNET"), getenv("SIM_ISA_MAINNET"));
        patched_world = getenv("SIM_ISA_MINIMAL") != nullptr;
    }
    static int num(const std::string &p) { return atoi(p.c_str() + 1); }
    void setup(const std::string &) override {
        if (patched_world) {
            static char stk[1 << 16];
            stack_t ss{};
            ss.ss_sp = stk;
            ss.ss_size = sizeof stk;
            sigaltstack(&ss, 0);
            struct sigaction sa {};
            sa.sa_sigaction = on_trap;
            sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
            sigaction(SIGTRAP, &sa, 0);
        }
        // libraries every node uses are loaded once, outside any run
        dlopen("libyaml-cpp.so.0.8", RTLD_NOW | RTLD_GLOBAL);
        dlopen("libyaml-cpp.so.0.7", RTLD_NOW | RTLD_GLOBAL);
        model::zero(1);
        sim::tls_dtors();
    }
    Plan gen(const std::string &prop, u64 seed, bool thorough) override {
        Plan p;
        p.prop = prop;
        p.seed = seed;
        Rng r(seed);
        int P = num(prop);
        bool single = P == 4 || P == 6 || P == 9 || P == 12;
        u64 N = single ? 1 : P == 10 ? 1 : r.range(1, 3), S = r.range(1, P == 3 || P == 5 ? 3 : 2);
        p.knob["nodes"] = N;
        p.knob["slots"] = S;
        bool main = images[1].file.size() && P != 12 && r.chance(1, 6);
        p.knob["preset"] = main;
        long budget = P == 12 ? r.pick<u64>({40, 100, 400, 400, 2000}) : P == 9 ? r.pick<u64>({40, 40, 200, 200, 700, 2000}) : r.pick<u64>({40, 200, 700, 700, 2000, 6000});
        bool heavy = false;
        // rarely one object of some hundred thousand bytes, past every 16-bit count and offset
        static const char *const BULK[] = {"L(U,1099511627776)", "L(U,0)", "L(Solo,0)", "L(B32,16777216)", "L(Checkpoint,1099511627776)", "L(Checkpoint,0)", "BL0", "BL1099511627776", "Mix3", "AttesterSlashing", "BeaconBlockBody",
                                           "L(AttesterSlashing,2)", "L(PendingAttestation,1024)", "L(IndexedAttestation,5)", "L(Attestation,128)", "SignedBeaconBlock", "BeaconState", "L(U,1099511627776)", "L(Solo,0)"};
        bool bulk = (P == 3 || P == 4 || P == 5 || P == 8 || P == 10) && r.chance(1, P == 4 ? 100 : 250);
        if (bulk) {
            budget = r.pick<u64>({70000, 150000, 300000, 600000, 600000, P == 4 ? 600000ull : 2700000ull});
            p.knob["slots"] = S = 1;
            p.knob["bulk"] = 1;
            p.knob["nodes"] = N = std::min<u64>(N, 2);
            p.knob["preset"] = main = false;
        }
        for (u64 s = 0; s < S; s++) {
            if (bulk) {
                const char *want = BULK[r.below(sizeof BULK / sizeof *BULK)];
                u64 t = 0;
                while (t < model::NTYPES && strcmp(model::TYPE_NAMES[t], want)) t++;
                if (t == model::NTYPES) { fprintf(stderr, "no type %s\n", want); _exit(4); }
                p.knob["t0"] = t;
                break;
            }
            u64 t = r.chance(1, 2) ? r.below(model::NAMED) : model::NAMED + r.below(model::NTYPES - model::NAMED);
            if (t == model::BEACON_STATE) {
                if (!r.chance(P == 12 ? 0 : P == 9 ? 1 : 2, 4) || (main && (P != 3 || !r.chance(1, 10)))) t = r.below(model::BEACON_STATE);
                else heavy = true;
            }
            p.knob["t" + std::to_string(s)] = t;
        }
        for (u64 n = 0; n < N; n++) p.knob["cpu" + std::to_string(n)] = P == 3 ? r.below(NCPU) : r.pick<u64>({0, 0, 1, 2, 8});
        if (P == 8) p.knob["pats"] = r.below(6);
        auto B = [&] { return (u64)(!bulk && r.chance(1, 6) ? budget * 3 : budget); };
        auto fate = [&](unsigned intact) { return r.chance(intact, 10) ? 0 : r.chance(2, 5) ? (u64)model::F_STRUCT : 1 + r.below(model::F_N - 1); };
        for (u64 s = 0; s < S; s++) p.add("pub", {s, r.next(), B()});
        u64 steps = bulk ? r.range(2, 5) : heavy && main ? 3 : heavy ? r.range(4, 10) : r.range(6, thorough ? 40 : 26);
        if (P == 12) steps = r.range(1, 10);
        else if (!bulk && !heavy && r.chance(1, thorough ? 20 : 40)) {  // rarely a long life of small values: what builds up over hundreds of calls
            steps = r.range(150, 500);
            budget = r.pick<u64>({20, 40, 100});
            for (auto &st : p.steps) st.a[2] = budget;
            p.knob["long"] = 1;
        }
        // swarm: each run leaves some kinds of step out
        unsigned w_send = r.below(4), w_crash = r.below(3), w_copy = r.below(3), w_oom = r.below(3), w_poke = r.below(3), w_snap = r.below(3), w_fresh = r.below(3), intact = r.range(1, 8);
        auto send = [&](u64 n, u64 s) {
            u64 mode = r.chance(6, 10) ? 0 : r.below(4);
            p.add("send", {n, s, mode, fate(intact), r.next(), r.chance(1, 2) ? r.below(50) : r.below(5000)});
            if (r.chance(2, 3)) p.add("run", {r.below(3000)});
        };
        unsigned hops = r.chance(1, 3) ? r.range(2, 8) : 0;
        // a peer that sends the same few bad messages over and over
        std::vector<Step> flood;
        if (p.k("long") && (P == 4 || P == 9) && r.chance(1, 2))
            for (u64 i = r.range(1, 3); i; i--) {
                Step st;
                st.op = P == 4 ? "dlv" : "txt";
                if (P == 4) st.a = {0, r.below(S), r.below(2), r.chance(2, 3) ? (u64)model::F_STRUCT : fate(0), r.next()};
                else st.a = {0, r.below(S), r.next(), r.chance(2, 3) ? 9 : r.range(1, 9), r.below(2)};
                flood.push_back(st);
            }
        for (u64 i = 0; i < steps; i++) {
            u64 n = r.below(N), s = r.below(S);
            if (hops && r.chance(1, hops)) p.add("hop", {});
            if (flood.size() && r.chance(9, 10)) {
                p.steps.push_back(flood[r.below(flood.size())]);
                continue;
            }
            switch (P) {
                case 3:
                    switch (r.below(8)) {
                        case 0: p.add("pub", {s, r.next(), B()}); break;
                        case 1: case 2: p.add("send", {n, s, 0, 0, r.next(), r.below(50)}); p.add("run", {100}); break;
                        case 3: p.add("crash", {n, r.below(NCPU), r.next()}); break;
                        case 4: p.add("snap", {n, s, r.chance(3, 4) ? 1ull : 0ull}); break;
                        case 5: case 6: p.add("tree", {n, r.next()}); break;
                        case 7: if (r.chance(1, 2)) p.add("poke", {n, s, 0, r.next() >> r.below(64)}); else p.add("copy", {n, s, r.below(5)}); break;
                    }
                    break;
                case 4:
                    if (r.chance(1, 6)) p.add("pub", {s, r.next(), B()});
                    p.add("dlv", {0, s, r.below(2), fate(1), r.next()});
                    if (r.chance(1, 8)) p.add("copy", {0, s, r.below(6)});
                    break;
                case 5:
                case 8: {
                    u64 k = r.below(12);
                    if (k < 2) p.add("pub", {s, r.next(), B()});
                    else if (k < 6) send(n, s);
                    else if (k == 6 && w_crash) p.add("crash", {n, P == 8 ? r.pick<u64>({0, 1, 2, 8}) : r.pick<u64>({0, 1, 2, 8}), r.next()});
                    else if (k == 7 && w_snap) { p.add("snap", {n, s, r.below(2)}); if (r.chance(1, 5)) p.add("rot", {n, s, r.next()}); }
                    else if (k == 8 && w_copy) p.add("copy", {n, s, r.below(6)});
                    else if (k == 9 && w_poke) p.add("poke", {n, s, r.below(2), r.next() >> r.below(64)});
                    else if (k == 10 && (P == 8 || w_fresh)) p.add("fresh", {n, s});
                    else if (k == 11 && w_oom && P == 5) p.add("oom", {n, s, r.pick<u64>({Sim::O_DECODE, Sim::O_ASSIGN, Sim::O_BADDECODE, Sim::O_DECODE}), r.below(64), r.chance(2, 3) ? 1ull : r.range(2, 6), r.next()});
                    else if (P == 8 && r.chance(1, 2)) p.add("tree", {n, r.next()});
                    else p.add("dlv", {n, s, r.below(2), fate(intact), r.next()});
                    if (w_send == 0 && r.chance(1, 4)) p.add("check", {n, s});
                    break;
                }
                case 6:
                    if (r.chance(1, 8)) p.add("pub", {s, r.next(), B()});
                    if (r.chance(1, 6)) p.add("dlv", {0, s, r.below(2), fate(intact), r.next()});
                    p.add("oom", {0, s, r.below(Sim::O_N), r.chance(1, 2) ? r.below(8) : r.below(400), r.chance(2, 3) ? 1ull : r.chance(1, 2) ? r.range(2, 8) : 1000000ull, r.next()});
                    break;
                case 9:
                    if (r.chance(1, 5)) p.add("pub", {s, r.next(), std::min<u64>(B(), 2000)});
                    if (r.chance(1, 8)) p.add("dlv", {0, s, r.below(2), fate(intact), r.next()});
                    p.add("txt", {0, s, r.next(), r.chance(1, 4) ? 0 : r.range(1, 9), r.below(2)});
                    if (r.chance(1, 10)) p.add("copy", {0, s, r.below(6)});
                    break;
                case 12:
                    switch (r.below(10)) {
                        case 0: p.add("pub", {s, r.next(), B()}); break;
                        case 1: case 2: p.add("dlv", {0, s, r.below(2), fate(intact), r.next()}); break;
                        case 3: p.add("copy", {0, s, r.below(6)}); break;
                        case 4: p.add("poke", {0, s, r.below(2), r.next() >> r.below(64)}); break;
                        case 5: if (r.chance(1, 2)) p.add("fresh", {0, s}); else p.add("div", {0, s, r.next()}); break;
                        case 6: p.add("tree", {0, r.next()}); break;
                        case 7: p.add("txt", {0, s, r.next(), r.chance(1, 4) ? 0 : r.range(1, 9), r.below(2)}); break;
                        case 8: p.add("oom", {0, s, r.below(Sim::O_N), r.chance(1, 2) ? r.below(8) : r.below(400), r.chance(2, 3) ? 1ull : r.range(2, 8), r.next()}); break;
                        case 9: p.add("check", {0, s}); break;
                    }
                    break;
                case 10:
                    switch (r.below(8)) {
                        case 0: p.add("pub", {s, r.next(), B()}); break;
                        case 1: p.add("dlv", {0, s, r.below(2), fate(5), r.next()}); p.add("cmp", {0, s}); break;
                        case 2: p.add("copy", {0, s, r.below(5)}); if (r.chance(1, 2)) p.add("poke", {0, s, r.below(2), r.next() >> r.below(64)}); p.add("cmp", {0, s}); break;
                        default: p.add("div", {0, s, r.next()});
                    }
                    break;
            }
        }
        return p;
    }
    void exec(const Plan &p, Ctx &c) override {
        int P = num(p.prop);
        const model::Schema &sch = p.k("preset") ? mainnet : minimal;
        u64 cc = cpuid_calls, se = sha_emulated, xc = xgetbv_calls;
        if (P != 8) {
            Sim s(p, c, P, sch);
            s.exec(0xcb);
        } else {
            static const u8 pats[][2] = {{0xcb, 0x00}, {0x00, 0xff}, {0x01, 0xfe}, {0xa5, 0x5a}, {0x02, 0x80}, {0xff, 0x10}};
            const u8 *pp = pats[p.k("pats") % 6];
            Ctx c2;
            std::vector<u64> t1, t2;
            {
                Sim s(p, c, P, sch);
                s.exec(pp[0]);
                t1 = s.trail;
            }
            if (!c.r.bad) {
                Sim s(p, c2, P, sch);
                s.exec(pp[1], 16);
                t2 = s.trail;
                c.stat("fault_memory_contents_changed");
                if (c2.r.bad) c.fail(c2.r.cls, c2.r.msg + " (second memory pattern)");
                else if (t1 != t2) {
                    size_t i = 0;
                    while (i < t1.size() && i < t2.size() && t1[i] == t2[i]) i++;
                    c.fail("depends-on-stale-memory", "the same run gives different results when memory held " + hex(pp, 1) + " and " + hex(pp + 1, 1) + " before (event " + std::to_string(i) + " of " + std::to_string(t1.size()) + ")");
                }
            }
        }
        if (cpuid_calls != cc) c.stat("probe_cpuid_answered", cpuid_calls - cc);
        if (sha_emulated != se) c.stat("probe_sha_emulated", sha_emulated - se);
        if (xgetbv_calls != xc) c.stat("probe_xgetbv_answered", xgetbv_calls - xc);
    }
};

int main(int argc, char **argv) {
    no_aslr(argv);
    FWorld w;
#ifdef SIM_ASAN
    return worker_main(argc, argv, w, false);
#else
    return worker_main(argc, argv, w, true);
#endif
}
