// Shared by every simulated world: the one PRNG, plans (a run written out as steps), event log hash,
// worker main loop, crash reporting.  Nothing here reads a clock or any entropy for a decision.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <array>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace sim {
using u8 = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;
using Bytes = std::vector<u8>;

inline u64 mix(u64 x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline u64 mix(u64 a, u64 b) { return mix(a ^ mix(b + 0x1234567)); }
inline u64 mix(u64 a, u64 b, u64 c) { return mix(mix(a, b), c); }

struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(mix(seed)) {}
    u64 next() {
        s += 0x9e3779b97f4a7c15ull;
        u64 x = s;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        return x ^ (x >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    u64 range(u64 lo, u64 hi) { return lo + below(hi - lo + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class T>
    T pick(std::initializer_list<T> l) {
        return *(l.begin() + below(l.size()));
    }
    void fill(void *p, size_t n) {
        u8 *b = static_cast<u8 *>(p);
        while (n >= 8) {
            u64 v = next();
            memcpy(b, &v, 8);
            b += 8;
            n -= 8;
        }
        if (n) {
            u64 v = next();
            memcpy(b, &v, n);
        }
    }
};

struct Log {  // hash over every event of a run: two runs are the same execution iff it is equal
    u64 h = 0xcbf29ce484222325ull;
    u64 n = 0;
    void b(const void *p, size_t len) {
        const u8 *c = static_cast<const u8 *>(p);
        for (size_t i = 0; i < len; i++) h = (h ^ c[i]) * 0x100000001b3ull;
    }
    void u(u64 v) { b(&v, 8); }
    void ev(u64 kind, u64 a = 0, u64 c = 0, u64 d = 0) {
        n++;
        h = mix(h ^ mix(kind, a), c, d);
    }
    void bytes(const Bytes &v) {
        u(v.size());
        b(v.data(), v.size());
    }
};

struct Step {
    std::string op;
    std::vector<u64> a;
    u64 arg(size_t i) const { return i < a.size() ? a[i] : 0; }
};
struct Plan {
    std::string prop;
    u64 seed = 0;
    std::vector<Step> steps;
    std::map<std::string, u64> knob;  // per run knobs (swarm choices)
    u64 k(const char *n, u64 d = 0) const {
        auto i = knob.find(n);
        return i == knob.end() ? d : i->second;
    }
    void add(const char *op, std::initializer_list<u64> a) { steps.push_back({op, a}); }
};

inline std::string plan_text(const Plan &p) {
    std::string s = "prop " + p.prop + "\nseed " + std::to_string(p.seed) + "\n";
    for (auto &k : p.knob) s += "knob " + k.first + " " + std::to_string(k.second) + "\n";
    for (auto &st : p.steps) {
        s += "step " + st.op;
        for (u64 v : st.a) s += " " + std::to_string(v);
        s += "\n";
    }
    return s;
}
inline bool plan_parse(const char *path, Plan &p) {
    FILE *f = fopen(path, "r");
    if (!f) return false;
    char *line = nullptr;
    size_t cap = 0;
    while (getline(&line, &cap, f) > 0) {
        std::vector<std::string> w;
        for (char *t = strtok(line, " \n"); t; t = strtok(nullptr, " \n")) w.push_back(t);
        if (w.size() >= 2 && w[0] == "prop") p.prop = w[1];
        if (w.size() >= 2 && w[0] == "seed") p.seed = strtoull(w[1].c_str(), 0, 10);
        if (w.size() >= 3 && w[0] == "knob") p.knob[w[1]] = strtoull(w[2].c_str(), 0, 10);
        if (w.size() >= 2 && w[0] == "step") {
            Step s;
            s.op = w[1];
            for (size_t i = 2; i < w.size(); i++) s.a.push_back(strtoull(w[i].c_str(), 0, 10));
            p.steps.push_back(s);
        }
    }
    free(line);
    fclose(f);
    return true;
}

struct Result {
    bool bad = false;
    std::string cls, msg;  // violation class (stable, used by the minimiser) and message
    u64 hash = 0, events = 0;
    bool nontrivial = false;
};

struct Stats {
    std::map<std::string, u64> c;
    void inc(const std::string &k, u64 n = 1) { c[k] += n; }
};

struct Ctx {
    Log log;
    Result r;
    Stats *st = nullptr;
    std::unordered_set<u64> *states = nullptr;
    u64 shape = 0;  // running hash of the schedule/fault sequence (content independent)
    void fail(const std::string &cls, const std::string &msg) {
        if (r.bad) return;
        r.bad = true;
        r.cls = cls;
        r.msg = msg;
    }
    void stat(const char *k, u64 n = 1) {
        if (st) st->c[k] += n;
    }
    void state(u64 h) {
        if (states && states->size() < 4000000) states->insert(h);
    }
};

struct World {
    virtual ~World() {}
    virtual Plan gen(const std::string &prop, u64 seed, bool thorough) = 0;
    virtual void exec(const Plan &, Ctx &) = 0;
    virtual void setup(const std::string &prop) {}
};

inline std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, 8, "\\u%04x", c);
            o += b;
        } else
            o += c;
    }
    return o;
}
inline std::string hex(const void *p, size_t n) {
    static const char *d = "0123456789abcdef";
    std::string s;
    for (size_t i = 0; i < n; i++) {
        s += d[static_cast<const u8 *>(p)[i] >> 4];
        s += d[static_cast<const u8 *>(p)[i] & 15];
    }
    return s;
}
inline std::string hexs(const Bytes &b, size_t max = 96) {
    std::string s = hex(b.data(), std::min(b.size(), max));
    if (b.size() > max) s += "...";
    return s + " (" + std::to_string(b.size()) + " bytes)";
}

// ---- crash reporting: the seed being run is known, so the plan can be regenerated ------------------
inline volatile u64 g_cur_seed = 0;
inline const char *g_phase = "idle";  // which call into the real code is in progress
inline volatile bool g_in_run = false;
// A worker that has seen a violation leaves this file; the other workers then stop starting new runs soon after. It
// only decides how long a search goes on, never what a run does.
inline const char *g_stop_file = nullptr;
inline void leave_stop_file(const char *cls) {
    if (!g_stop_file || !strcmp(cls, "hang")) return;
    int fd = open(g_stop_file, O_WRONLY | O_CREAT | O_CLOEXEC, 0600);
    if (fd >= 0) close(fd);
}
inline void crash_line(const char *cls, const char *detail) {
    leave_stop_file(cls);
    char b[512];
    int n = snprintf(b, sizeof b, "V {\"seed\": \"%llu\", \"class\": \"%s\", \"msg\": \"%s during %s\", \"hash\": \"crash\"}\n",
                     (unsigned long long)g_cur_seed, cls, detail, g_phase);
    if (write(1, b, n)) {}
}
inline void crash_handler(int sig, siginfo_t *, void *) {
    const char *c = sig == SIGSEGV ? "crash-segv" : sig == SIGBUS ? "crash-bus" : sig == SIGILL ? "crash-ill" : sig == SIGFPE ? "crash-fpe" : sig == SIGABRT ? "crash-abort"
                    : sig == SIGXCPU || sig == SIGVTALRM ? "hang"
                                                          : "crash-other";
    if (g_in_run) crash_line(c, "the process was ended");
    _exit(g_in_run ? 3 : 4);
}
inline void install_crash_handlers(bool segv = true) {
    static char stk[1 << 16];
    stack_t ss{};
    ss.ss_sp = stk;
    ss.ss_size = sizeof stk;
    sigaltstack(&ss, 0);
    struct sigaction sa {};
    sa.sa_sigaction = crash_handler;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigfillset(&sa.sa_mask);
    sigaction(SIGABRT, &sa, 0);
    sigaction(SIGVTALRM, &sa, 0);
    if (segv)
        for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE}) sigaction(s, &sa, 0);
}
inline void arm_watchdog(int cpu_seconds) {
    struct itimerval it {};
    it.it_value.tv_sec = cpu_seconds;
    setitimer(ITIMER_VIRTUAL, &it, 0);
}

inline void no_aslr(char **argv) {
#ifndef SIM_ASAN
    struct rlimit rl {};  // what a thread may have: large values must not be kept on the stack
    getrlimit(RLIMIT_STACK, &rl);
    rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 2 << 20);
    setrlimit(RLIMIT_STACK, &rl);
#endif
    if (getenv("SIM_NO_REEXEC")) return;
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) {
        setenv("SIM_NO_REEXEC", "1", 1);
        execv("/proc/self/exe", argv);
    }
}

inline u64 prop_salt(const std::string &p) {
    u64 h = 77;
    for (char c : p) h = mix(h, (u8)c);
    return h;
}

// Worker modes:
//   search  PROP VSEED START STRIDE COUNT SECONDS THOROUGH STATESFILE   run seeds START, START+STRIDE, ...
//   plan    PROP SEED THOROUGH                                          print the plan of one seed
//   run     FILE                                                        execute a plan file, print its result
//   hashes  PROP VSEED START STRIDE COUNT THOROUGH                      print the event hash of each seed
// seeds are mix(VSEED, prop, index).
inline int worker_main(int argc, char **argv, World &w, bool segv_handlers = true) {
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (argc < 3) return 2;
    std::string mode = argv[1];
    int watchdog = getenv("SIM_WATCHDOG") ? atoi(getenv("SIM_WATCHDOG")) : 60;
    auto run1 = [&](const Plan &p, Stats *st, std::unordered_set<u64> *states) {
        Ctx c;
        c.st = st;
        c.states = states;
        g_cur_seed = p.seed;
        g_in_run = true;
        arm_watchdog(watchdog);
        w.exec(p, c);
        arm_watchdog(0);
        g_in_run = false;
        g_phase = "idle";
        c.r.hash = c.log.h;
        c.r.events = c.log.n;
        return c;
    };
    auto vline = [&](const Plan &p, const Result &r) {
        printf("V {\"seed\": \"%llu\", \"class\": \"%s\", \"msg\": \"%s\", \"hash\": \"%016llx\"}\n", (unsigned long long)p.seed, jesc(r.cls).c_str(),
               jesc(r.msg).c_str(), (unsigned long long)r.hash);
    };
    if (mode == "plan") {
        Plan p = w.gen(argv[2], strtoull(argv[3], 0, 10), atoi(argv[4]));
        fputs(plan_text(p).c_str(), stdout);
        return 0;
    }
    install_crash_handlers(segv_handlers);
    if (mode == "run") {
        Plan p;
        if (!plan_parse(argv[2], p)) return 2;
        w.setup(p.prop);
        Stats st;
        auto c = run1(p, &st, nullptr);
        if (c.r.bad) vline(p, c.r);
        printf("R {\"bad\": %d, \"hash\": \"%016llx\", \"events\": %llu}\n", c.r.bad, (unsigned long long)c.r.hash, (unsigned long long)c.r.events);
        fflush(stdout);
        _exit(c.r.bad ? 3 : 0);
    }
    if (mode == "hashes") {
        std::string prop = argv[2];
        w.setup(prop);
        u64 vs = strtoull(argv[3], 0, 10), start = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10), count = strtoull(argv[6], 0, 10);
        for (u64 k = 0; k < count; k++) {
            u64 idx = start + k * stride;
            Plan p = w.gen(prop, mix(vs, prop_salt(prop), idx), atoi(argv[7]));
            auto c = run1(p, nullptr, nullptr);
            printf("H %llu %016llx %llu\n", (unsigned long long)idx, (unsigned long long)c.r.hash, (unsigned long long)c.r.events);
        }
        fflush(stdout);
        _exit(0);
    }
    if (mode == "search") {
        std::string prop = argv[2];
        w.setup(prop);
        u64 vs = strtoull(argv[3], 0, 10), start = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10), count = strtoull(argv[6], 0, 10);
        double secs = atof(argv[7]);
        bool thorough = atoi(argv[8]);
        Stats st;
        std::unordered_set<u64> states, shapes;
        u64 runs = 0, events = 0, nontriv = 0, distinct = 0, bads = 0;
        // The wall clock only decides when to stop starting new runs; it influences no run.
        struct timespec t0, t1;
        clock_gettime(CLOCK_MONOTONIC, &t0);
        std::string stop_file;
        if (argc > 9) {
            stop_file = argv[9];
            stop_file.erase(stop_file.find_last_of('/') + 1) += "stop";
            g_stop_file = stop_file.c_str();
        }
        bool stopping = false;
        std::vector<std::string> samples;
        for (u64 k = 0; k < count; k++) {
            u64 idx = start + k * stride;
            g_cur_seed = mix(vs, prop_salt(prop), idx);
            Plan p = w.gen(prop, g_cur_seed, thorough);
            auto c = run1(p, &st, &states);
            runs++;
            events += c.r.events;
            if (c.r.nontrivial) {
                nontriv++;
                if (shapes.insert(c.shape ? c.shape : c.r.hash).second) distinct++;
                if (samples.size() < 2 && p.steps.size() <= 14) samples.push_back(plan_text(p));
            }
            if (c.r.bad) {
                vline(p, c.r);
                leave_stop_file(c.r.cls.c_str());
                if (++bads >= 3) break;
            }
            clock_gettime(CLOCK_MONOTONIC, &t1);
            double gone = (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9;
            if (gone > secs) break;
            if (g_stop_file && !stopping && access(g_stop_file, F_OK) == 0) {
                stopping = true;
                secs = std::min(secs, gone + 6);
            }
        }
        std::string js = "S {\"runs\": " + std::to_string(runs) + ", \"events\": " + std::to_string(events) + ", \"nontrivial\": " + std::to_string(nontriv) + ", \"stats\": {";
        bool first = true;
        for (auto &kv : st.c) {
            js += std::string(first ? "" : ", ") + "\"" + jesc(kv.first) + "\": " + std::to_string(kv.second);
            first = false;
        }
        js += "}, \"samples\": [";
        for (size_t i = 0; i < samples.size(); i++) js += std::string(i ? ", " : "") + "\"" + [&] {
            std::string o;
            for (char ch : samples[i]) o += ch == '\n' ? std::string("; ") : std::string(1, ch);
            return jesc(o);
        }() + "\"";
        js += "]}";
        puts(js.c_str());
        if (argc > 9) {
            FILE *f = fopen(argv[9], "wb");
            if (f) {
                u64 tag = 1;
                for (u64 h : states) {
                    fwrite(&tag, 8, 1, f);
                    fwrite(&h, 8, 1, f);
                }
                tag = 2;
                for (u64 h : shapes) {
                    fwrite(&tag, 8, 1, f);
                    fwrite(&h, 8, 1, f);
                }
                fclose(f);
            }
        }
        fflush(stdout);
        _exit(bads ? 3 : 0);
    }
    return 2;
}
}  // namespace sim
