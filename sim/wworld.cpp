// The watch: nodes that receive attestations over a faulty network from honest and equivocating validators, keep what
// they have seen across crashes, and convict.  The rules applied are the library's; the network, disk and clocks are not.
#include <dlfcn.h>
#include <sys/mman.h>

#include <deque>
#include <set>

#include "api.h"
#include "common.hpp"
#include "model.hpp"
#include "module.hpp"

using namespace sim;
using model::Val;

static std::vector<u8> image;
struct Module {  // one start of the library in a process of its own, as far as its statics are concerned
    struct File { std::string path; bool busy; };
    static std::deque<File> &pool() { static std::deque<File> p; return p; }
    File *f = nullptr;
    void *h = nullptr;
    const NodeApi *api = nullptr;
    void start() {
        for (auto &x : pool()) if (!x.busy) { f = &x; break; }
        if (!f) {
            int fd = memfd_create("node", MFD_CLOEXEC);
            if (fd < 0 || pool().size() > 4000 || write(fd, image.data(), image.size()) != (ssize_t)image.size()) { fprintf(stderr, "memfd\n"); _exit(4); }
            pool().push_back({"/proc/self/fd/" + std::to_string(fd), false});
            f = &pool().back();
        }
        f->busy = true;
        h = dlopen(f->path.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(4); }
        api = ((const NodeApi *(*)())dlsym(h, "mammon_node"))();
    }
    void stop() {
        run_tls_dtors(h);
        dlclose(h);
        if (!dlopen(f->path.c_str(), RTLD_NOW | RTLD_NOLOAD)) f->busy = false;
        f = nullptr;
        h = nullptr;
    }
    const TypeOps *ops(const char *name) const {
        for (size_t p = 0; p < api->nparts; p++)
            for (size_t i = 0; i < *api->parts[p].n; i++)
                if (!strcmp(api->parts[p].types[i].name, name)) return &api->parts[p].types[i];
        fprintf(stderr, "the node has no type %s\n", name);
        _exit(4);
    }
};

static const u64 FAR = ~0ull, FULL = 32000000000ull, SPE = 8;
static u64 plus(u64 a, u64 b) { return a + b < a ? FAR : a + b; }

struct WWorld : World {
    model::Schema sch{false};
    const model::Ty *TI, *TD, *TV;
    WWorld() {
        const char *so = getenv("SIM_NODE_MINIMAL");
        FILE *f = so ? fopen(so, "rb") : nullptr;
        if (!f) return;
        fseek(f, 0, SEEK_END);
        image.resize(ftell(f));
        rewind(f);
        if (fread(image.data(), 1, image.size(), f) != image.size()) _exit(4);
        fclose(f);
        TI = sch.get("IndexedAttestation");
        TD = sch.get("AttestationData");
        TV = sch.get("Validator");
    }
    void setup(const std::string &) override {
        if (image.empty()) { fprintf(stderr, "no module\n"); _exit(4); }
        dlopen("libyaml-cpp.so.0.8", RTLD_NOW | RTLD_GLOBAL);
    }

    // ---- the rules, from the phase0 specification ----
    static bool double_vote(const model::Ty *t, const Val &a, const Val &b) { return model::enc(t, a) != model::enc(t, b) && a.v[4].v[0].u == b.v[4].v[0].u; }
    static bool surrounds(const Val &a, const Val &b) { return a.v[3].v[0].u < b.v[3].v[0].u && b.v[4].v[0].u < a.v[4].v[0].u; }
    bool slashable(const Val &a, const Val &b) const { return double_vote(TD, a, b) || surrounds(a, b); }
    static bool valid(const Val &ia) {
        auto &l = ia.v[0].v;
        if (l.empty()) return false;
        for (size_t i = 1; i < l.size(); i++) if (l[i - 1].u >= l[i].u) return false;
        return true;
    }
    // a validator record: pubkey, credentials, balance, slashed, eligibility, activation, exit, withdrawable
    static int status(const Val &v, u64 e) {
        bool active = v.v[5].u <= e && e < v.v[6].u, slash = !v.v[3].u && v.v[5].u <= e && e < v.v[7].u, queue = v.v[4].u == FAR && v.v[2].u == FULL;
        return active | slash << 1 | queue << 2;
    }

    Val bytes(size_t n, u64 seed) const {
        Val v;
        v.b.resize(n);
        Rng r(seed);
        if (seed) r.fill(v.b.data(), n);
        return v;
    }
    static Val num(u64 u) { Val v; v.u = u; return v; }
    static Val tup(std::vector<Val> l) { Val v; v.v = std::move(l); return v; }

    Plan gen(const std::string &prop, u64 seed, bool thorough) override {
        Plan p;
        p.prop = prop;
        p.seed = seed;
        Rng r(seed);
        u64 N = r.range(1, 3), V = r.range(2, 8), byz = 1 + r.below(std::max<u64>(1, V / 2)), E = r.chance(1, thorough ? 20 : 50) ? r.range(20, 60) : r.range(2, thorough ? 14 : 8);
        u64 base = r.pick<u64>({0, 1, 6, 255, 65533, 2147483640ull, 4294967290ull, 9223372036854775800ull, FAR - 60});
        p.knob["nodes"] = N;
        p.knob["vals"] = V;
        p.knob["base"] = base;
        p.knob["index0"] = r.pick<u64>({0, 1, 250, 4294967290ull, 9223372036854775804ull, FAR - 8000});
        p.knob["stride"] = r.range(1, 5);
        p.knob["honest"] = ((1ull << V) - 1) & ~((1ull << byz) - 1);  // validators 0 .. byz-1 may break the rules
        p.knob["order"] = r.next();
        auto ep = [&] {  // epochs of a record, close to where the clocks are
            u64 k = r.below(10);
            return k == 0 ? FAR : k == 1 ? 0 : plus(base, r.below(E + 4));
        };
        for (u64 v = 0; v < V; v++) {
            u64 a = ep(), x = r.chance(1, 2) ? FAR : ep();
            p.add("val", {v, r.chance(1, 2) ? FULL : r.chance(1, 2) ? FULL + r.range(0, 2) - 1 : r.next(), r.chance(1, 6), r.chance(1, 2) ? FAR : ep(), a, x, x == FAR ? FAR : plus(x, r.below(6))});
        }
        // what is said: honest votes, one per epoch, sources that never go back; and the others
        struct A { u64 id, mask, slot, index, root, se, sr, te, tr; };
        std::vector<A> all;
        u64 id = 0, src = 0, everyone = (1ull << V) - 1;
        std::vector<std::pair<std::string, std::vector<u64>>> q;
        auto say = [&](const A &a, u64 sig, u64 mess, u64 pos, u64 fill) { p.add("att", {a.id, a.mask, a.slot, a.index, a.root, a.se, a.sr, a.te, a.tr, sig, mess, pos, fill}); all.push_back(a); };
        auto send = [&](u64 i) {
            for (u64 n = 0; n < N; n++) {
                u64 copies = r.chance(1, 6) ? 2 : 1;
                for (u64 c = 0; c < copies; c++) {
                    u64 fate = r.chance(1, 6) ? 1 : r.chance(1, 8) ? 2 : 0;  // lost, damaged, intact
                    p.add("send", {i, n, r.chance(1, 2) ? 0 : r.below(4 * SPE), fate, fate == 2 ? r.next() : 0, c});
                }
            }
        };
        for (u64 e = 1; e <= E; e++) {
            if (r.chance(1, 2)) src = r.range(src, e - 1);
            u64 left = everyone, parts = r.range(1, 3);
            for (u64 k = 0; k < parts && left; k++) {
                u64 m = k + 1 == parts ? left : left & r.next();
                if (!m) continue;
                left &= ~m;
                A a{id++, m, plus(plus(base, 0) > FAR / SPE ? e : base * SPE, e * SPE), k, 100 + e, plus(base, src), 500 + src, plus(base, e), 500 + e};
                u64 mess = r.chance(1, 8) ? r.range(1, 4) : 0;
                say(a, r.next(), mess, r.next(), r.chance(1, 4) ? r.chance(1, 12) ? r.chance(1, 2) ? r.range(2000, 2002) : r.range(60, 1999) : r.range(1, 60) : 0);
                send(a.id);
            }
            u64 lies = r.below(3);
            for (u64 k = 0; k < lies; k++) {
                A a = all[r.below(all.size())];
                a.id = id++;
                a.mask = r.range(1, (1ull << byz) - 1);
                switch (r.below(11)) {
                    case 0: a.root ^= 1ull << 40; break;
                    case 1: a.slot += r.chance(1, 2) ? 1 : 1ull << 33; break;
                    case 2: a.index ^= r.chance(1, 2) ? 1 : 1ull << 63; break;
                    case 3: a.sr ^= 1ull << 41; break;
                    case 4: a.tr ^= 1ull << 42; break;
                    case 5: a.se = plus(base, r.below(E + 1)); break;                                                      // another source for the same target
                    case 6: a.se = a.se > base ? a.se - 1 : a.se; a.te = plus(a.te, r.range(1, 2)); break;                  // surrounds, or nearly
                    case 7: a.se = plus(a.se, 1); a.te = a.te > base ? a.te - r.below(3) : a.te; break;                     // surrounded, or nearly
                    case 8: break;                                                                                          // the same again, signed again
                    case 10: if (r.chance(1, 2)) a.se = r.chance(1, 3) ? 1ull << 63 : 0; else a.te = r.chance(1, 3) ? 1ull << 63 : FAR; break;             // from the beginning, to the end of time
                    case 9: a.se = plus(base, r.below(E + 1)); a.te = plus(base, r.below(E + 1)); a.tr = 500 + a.te; break;  // anything
                }
                say(a, r.next(), r.chance(1, 10) ? r.range(1, 4) : 0, r.next(), r.chance(1, 6) ? r.chance(1, 12) ? r.chance(1, 2) ? r.range(2000, 2002) : r.range(60, 1999) : r.range(1, 60) : 0);
                send(a.id);
            }
            u64 n = r.below(N);
            if (r.chance(1, 3)) p.add("snap", {n});
            if (r.chance(1, 4)) p.add("crash", {r.below(N), r.chance(1, 2) ? r.next() : 0});
            if (r.chance(1, 4)) p.add("skew", {r.below(N), r.chance(1, 2) ? r.below(4 * SPE) : -r.below(4 * SPE)});
            if (r.chance(1, 5)) p.add("part", {r.below(1ull << N)});
            p.add("tick", {r.chance(1, 6) ? r.below(6 * SPE) : SPE});
            if (r.chance(2, 3)) p.add("look", {r.below(N)});
        }
        return p;
    }

    struct Att {
        u64 mask = 0;
        Val v;
        Bytes e;
        bool ok = false;
    };
    struct Seen { void *o; u64 id; };
    struct Node {
        Module m;
        const TypeOps *ti = nullptr, *tv = nullptr, *ts = nullptr;
        void *inbox = nullptr, *state = nullptr;
        std::vector<void *> reg;
        std::vector<Val> regv;
        std::vector<Seen> seen;
        std::vector<std::pair<u64, Bytes>> disk;  // what survives a crash
        std::set<u64> evidence;
        u64 skew = 0;
        bool cut = false;
    };
    struct Msg { u64 due, seq; size_t node; u64 id, copy; Bytes data; };
    struct State {
        std::map<u64, Att> att;
        std::deque<Node> nodes;
        std::vector<Val> registry;
        std::vector<Msg> net;
        u64 now = 0, seq = 0, base = 0, index0 = 0, stride = 1;
    };
    static Bytes bytes_of(const TypeOps *t, const void *o, Ctx &c) {
        Bytes b;
        struct L { static void put(void *x, const u8 *q, size_t n) { ((Bytes *)x)->insert(((Bytes *)x)->end(), q, q + n); } };
        if (t->encode(o, L::put, &b) != R_TRUE) c.fail("exception", std::string("encoding a ") + t->name + " failed");
        return b;
    }
    void boot(State &S, Node &n, Ctx &c) {
        g_phase = "start-up of a node";
        n.m.start();
        n.ti = n.m.ops("IndexedAttestation");
        n.tv = n.m.ops("Validator");
        n.ts = n.m.ops("BeaconState");
        int rc;
        n.inbox = n.ti->create(&rc);
        n.state = n.ts->create(&rc);
        n.regv = S.registry;
        for (auto &v : n.regv) {
            void *o = n.tv->create(&rc);
            Bytes e = model::enc(TV, v);
            if (n.tv->decode(o, e.data(), e.size()) != R_TRUE) c.fail("lost-record", "a validator's record was not accepted");
            n.reg.push_back(o);
        }
    }
    void halt(Node &n) {
        g_phase = "end of a node";
        for (auto &s : n.seen) n.ti->destroy(s.o);
        for (auto o : n.reg) n.tv->destroy(o);
        n.ti->destroy(n.inbox);
        n.ts->destroy(n.state);
        n.seen.clear();
        n.reg.clear();
        n.evidence.clear();
        n.m.stop();
    }
    static u64 epoch(const State &S, const Node &n) {
        u64 t = S.now + n.skew;
        if (t >> 63) t = 0;  // before the chain began
        return plus(S.base, t / SPE);
    }
    static std::string words(const Val &d) {
        return "(slot " + std::to_string(d.v[0].u) + " index " + std::to_string(d.v[1].u) + " source " + std::to_string(d.v[3].v[0].u) + " target " + std::to_string(d.v[4].v[0].u) + ")";
    }
    void look(State &S, Node &n, Ctx &c) {
        g_phase = "reading validator records";
        u64 e = epoch(S, n);
        for (size_t v = 0; v < n.reg.size() && !c.r.bad; v++) {
            for (u64 x : {e, n.regv[v].v[5].u, n.regv[v].v[6].u, n.regv[v].v[7].u, n.regv[v].v[6].u - 1, n.regv[v].v[7].u - 1}) {
                int bits = 0, rc = n.m.api->validator_at(n.reg[v], x, &bits), want = status(n.regv[v], x);
                c.log.ev(3, v, x, bits);
                c.stat("probe_record_read");
                c.state(mix(0x33, want, mix(n.regv[v].v[5].u <= x, x < n.regv[v].v[6].u, x < n.regv[v].v[7].u)));
                if (rc != R_TRUE) return c.fail("exception", "reading a validator's record failed");
                if (bits != want)
                    return c.fail("wrong-status", "at epoch " + std::to_string(x) + " a validator (balance " + std::to_string(n.regv[v].v[2].u) + " slashed " + std::to_string(n.regv[v].v[3].u) + " eligible " + std::to_string(n.regv[v].v[4].u) +
                                                      " active " + std::to_string(n.regv[v].v[5].u) + " exit " + std::to_string(n.regv[v].v[6].u) + " withdrawable " + std::to_string(n.regv[v].v[7].u) + ") counts as " + std::to_string(bits) +
                                                      " and not " + std::to_string(want) + " (1 active, 2 slashable, 4 for the queue)");
            }
        }
    }
    // a message reaches a node
    void receive(State &S, Node &n, u64 id, const Bytes &data, Ctx &c, bool from_disk = false) {
        if (c.r.bad) return;
        auto it = S.att.find(id);
        if (it == S.att.end()) return;
        const Att &A = it->second;
        bool intact = data == A.e;
        g_phase = "receiving an attestation";
        int rc = n.ti->decode(n.inbox, data.data(), data.size());
        Val got;
        bool readable = model::dec(TI, data.data(), data.size(), got);
        c.log.ev(4, id, rc, data.size());
        if (intact && rc != R_TRUE) return c.fail("lost-evidence", "an intact attestation was not accepted");
        if (rc != R_TRUE || !readable) return;
        int ok = 0;
        rc = n.m.api->att_valid(n.inbox, n.state, &ok);
        if (rc != R_TRUE) return c.fail("exception", "the validity check failed");
        c.log.ev(5, id, ok);
        c.stat("probe_validity_checked");
        if (bool(ok) != valid(got)) return c.fail("wrong-validity", "an attestation by " + std::to_string(got.v[0].v.size()) + " validators is said to be " + (ok ? "valid" : "invalid"));
        if (!intact || !ok) return;  // a damaged one has no good signature
        int cr;
        void *o = n.ti->clone(n.inbox, &cr);
        if (!o) return c.fail("exception", "copying an attestation failed");
        g_phase = "comparing attestations";
        bool had = false;
        for (auto &s : n.seen) {
            const Att &B = S.att[s.id];
            for (int dir = 0; dir < 2; dir++) {
                const Att &X = dir ? B : A, &Y = dir ? A : B;
                int yes = 0;
                rc = n.m.api->att_slashable(dir ? s.o : o, dir ? o : s.o, &yes);
                bool want = slashable(X.v.v[1], Y.v.v[1]);
                c.log.ev(6, id, s.id, yes);
                c.stat("probe_pair_checked");
                auto cmp = [](u64 a, u64 b) { return a < b ? 0 : a == b ? 1 : 2; };
                c.state(mix(0x44, mix(cmp(X.v.v[1].v[3].v[0].u, Y.v.v[1].v[3].v[0].u), cmp(X.v.v[1].v[4].v[0].u, Y.v.v[1].v[4].v[0].u)), X.v.v[1] == Y.v.v[1]));
                if (rc != R_TRUE) c.fail("exception", "comparing two attestations failed");
                if (bool(yes) != want)
                    c.fail("wrong-verdict", "votes " + words(X.v.v[1]) + " and " + words(Y.v.v[1]) + (X.v.v[1] == Y.v.v[1] ? ", the same vote," : "") + " are said " + (yes ? "" : "not ") + "to break the rules");
                if (c.r.bad) { n.ti->destroy(o); return; }
                if (yes)
                    for (size_t v = 0; v < n.reg.size(); v++)
                        if ((A.mask & B.mask) >> v & 1) convict(S, n, v, c);
            }
            had |= s.id == id;
        }
        if (had) n.ti->destroy(o);
        else n.seen.push_back({o, id});
        if (from_disk) c.stat("probe_recovered_from_disk");
    }
    void convict(State &S, Node &n, size_t v, Ctx &c) {
        if (n.evidence.insert(v).second) c.stat("probe_equivocator_found");
        u64 e = epoch(S, n);
        int bits = 0;
        n.m.api->validator_at(n.reg[v], e, &bits);
        if (bits != status(n.regv[v], e)) return look(S, n, c);
        if (!(bits & 2)) return;
        Val &r = n.regv[v];
        r.v[3].u = 1;
        r.v[6].u = std::min(r.v[6].u, plus(e, 4));
        r.v[7].u = std::max(r.v[7].u == FAR ? 0 : r.v[7].u, plus(e, 8));
        Bytes b = model::enc(TV, r);
        if (n.tv->decode(n.reg[v], b.data(), b.size()) != R_TRUE) c.fail("lost-record", "a validator's record was not accepted");
        n.m.api->validator_at(n.reg[v], e, &bits);
        c.stat("probe_slashed");
        if (bits & 2) c.fail("wrong-status", "a validator that was slashed can be slashed again");
    }
    void deliver(State &S, Ctx &c) {
        for (;;) {
            size_t best = S.net.size();
            for (size_t i = 0; i < S.net.size(); i++)
                if (S.net[i].due <= S.now && !S.nodes[S.net[i].node].cut && (best == S.net.size() || std::make_pair(S.net[i].due, S.net[i].seq) < std::make_pair(S.net[best].due, S.net[best].seq))) best = i;
            if (best == S.net.size() || c.r.bad) return;
            Msg m = S.net[best];
            S.net.erase(S.net.begin() + best);
            receive(S, S.nodes[m.node], m.id, m.data, c);
        }
    }
    void exec(const Plan &p, Ctx &c) override {
        State S;
        size_t N = std::min<u64>(std::max<u64>(1, p.k("nodes", 1)), 4), V = std::min<u64>(std::max<u64>(1, p.k("vals", 2)), 16);
        S.base = p.k("base");
        S.index0 = p.k("index0");
        S.stride = std::max<u64>(1, p.k("stride", 1));
        S.registry.assign(V, model::def(TV));
        for (size_t v = 0; v < V; v++) S.registry[v].v[0] = bytes(48, 1 + v);
        for (auto &st : p.steps)
            if (st.op == "val" && st.arg(0) < V) {
                Val &r = S.registry[st.arg(0)];
                r.v[2].u = st.arg(1);
                r.v[3].u = st.arg(2) & 1;
                for (int k = 0; k < 4; k++) r.v[4 + k].u = st.arg(3 + k);
            }
        for (size_t n = 0; n < N; n++) {
            S.nodes.emplace_back();
            boot(S, S.nodes.back(), c);
        }
        u64 faults = 0;
        for (auto &st : p.steps) {
            if (c.r.bad) break;
            c.log.ev(1, prop_salt(st.op), st.arg(0), st.arg(1));
            if (st.op != "val" && st.op != "att") c.shape = mix(c.shape, mix(prop_salt(st.op), st.arg(1), st.op == "send" ? st.arg(3) : 0));
            if (st.op == "att") {
                Att a;
                a.mask = st.arg(1) & ((1ull << V) - 1);
                std::vector<u64> l;
                for (size_t v = 0; v < V; v++) if (a.mask >> v & 1) l.push_back(S.index0 + v * S.stride);
                if (st.arg(12) < 2000)
                    for (u64 k = 0; k < st.arg(12); k++) l.push_back(S.index0 + 100 + k * 3);
                else  // a full committee, or one or two short of it
                    for (u64 k = 0, most = 2048 - st.arg(12) % 3; l.size() < most; k++) l.push_back(S.index0 + 100 + k * 3);
                if (l.size() == 2048) c.stat("probe_full_committee");
                size_t pos = l.empty() ? 0 : st.arg(11) % l.size();
                switch (st.arg(10)) {
                    case 1: l.clear(); break;
                    case 2: if (l.size() && l.size() < 2048) l.insert(l.begin() + pos, l[pos]); break;
                    case 3: if (l.size() > 1) std::swap(l[pos], l[(pos + 1) % l.size()]); break;
                    case 4: if (l.size() > 1 && l.size() < 2048) l.push_back(l[pos]); break;
                }
                Val il;
                for (u64 x : l) il.v.push_back(num(x));
                a.v = tup({il, tup({num(st.arg(2)), num(st.arg(3)), bytes(32, st.arg(4)), tup({num(st.arg(5)), bytes(32, st.arg(6))}), tup({num(st.arg(7)), bytes(32, st.arg(8))})}), bytes(96, st.arg(9))});
                a.e = model::enc(TI, a.v);
                a.ok = valid(a.v);
                if (!a.ok) c.stat("fault_malformed_attestation"), faults++;
                S.att[st.arg(0)] = a;
            } else if (st.op == "send") {
                auto it = S.att.find(st.arg(0));
                if (it == S.att.end()) continue;
                if (st.arg(3) == 1) { c.stat("fault_message_lost"); faults++; continue; }
                Msg m{S.now + st.arg(2), S.seq++, size_t(st.arg(1) % N), st.arg(0), st.arg(5), it->second.e};
                if (st.arg(2)) c.stat("fault_message_delayed"), faults++;
                if (st.arg(5)) c.stat("fault_message_duplicated"), faults++;
                if (st.arg(3) == 2) {
                    Rng r(st.arg(4));
                    c.stat("fault_message_damaged");
                    faults++;
                    switch (r.below(3)) {
                        case 0: m.data.resize(r.below(m.data.size())); break;
                        case 1: m.data[r.below(m.data.size())] ^= 1 << r.below(8); break;
                        case 2: if (m.data.size() > 228 + 16) std::swap_ranges(m.data.begin() + 228, m.data.begin() + 236, m.data.begin() + 236); break;  // two indices change places
                    }
                }
                S.net.push_back(m);
            } else if (st.op == "tick") {
                for (u64 k = 0; k < st.arg(0) && k < 1000; k++) {
                    S.now++;
                    c.stat("sim_slots");
                    deliver(S, c);
                }
            } else if (st.op == "look") {
                look(S, S.nodes[st.arg(0) % N], c);
            } else if (st.op == "snap") {
                Node &n = S.nodes[st.arg(0) % N];
                g_phase = "writing a snapshot";
                n.disk.clear();
                for (auto &s : n.seen) n.disk.push_back({s.id, bytes_of(n.ti, s.o, c)});
                for (auto &d : n.disk) if (d.second != S.att[d.first].e) c.fail("object-changed", "a stored attestation is not what was received");
                c.stat("probe_snapshot");
            } else if (st.op == "crash") {
                Node &n = S.nodes[st.arg(0) % N];
                halt(n);
                boot(S, n, c);
                if (st.arg(1) && n.disk.size()) {  // the last writes did not reach the disk
                    Rng r(st.arg(1));
                    size_t keep = r.below(n.disk.size() + 1);
                    if (keep < n.disk.size()) n.disk[keep].second.resize(r.below(n.disk[keep].second.size()));
                    n.disk.resize(std::min(n.disk.size(), keep + 1));
                    c.stat("fault_write_torn");
                }
                c.stat("fault_crash_restart");
                faults++;
                auto d = n.disk;
                for (auto &x : d) receive(S, n, x.first, x.second, c, true);
            } else if (st.op == "skew") {
                S.nodes[st.arg(0) % N].skew = st.arg(1);
                c.stat(st.arg(1) >> 63 ? "fault_clock_behind" : "fault_clock_ahead");
                faults++;
                look(S, S.nodes[st.arg(0) % N], c);
            } else if (st.op == "part") {
                for (size_t n = 0; n < N; n++) S.nodes[n].cut = st.arg(0) >> n & 1;
                if (st.arg(0)) c.stat("fault_partition"), faults++;
                deliver(S, c);
            }
        }
        // faults stop: within one round of messages every node knows the same
        std::set<u64> want;
        if (!c.r.bad) {
            for (auto &n : S.nodes) n.cut = false;
            S.now += 10 * SPE;
            deliver(S, c);
            std::vector<u64> ids;
            for (auto &a : S.att) ids.push_back(a.first);
            for (size_t n = 0; n < N; n++) {
                Rng r(p.k("order") + n);
                for (size_t i = ids.size(); i > 1; i--) std::swap(ids[i - 1], ids[r.below(i)]);
                for (u64 i : ids) receive(S, S.nodes[n], i, S.att[i].e, c);
            }
            for (auto &x : S.att)
                for (auto &y : S.att)
                    if (x.second.ok && y.second.ok && slashable(x.second.v.v[1], y.second.v.v[1]))
                        for (size_t v = 0; v < V; v++) if ((x.second.mask & y.second.mask) >> v & 1) want.insert(v);
            for (size_t n = 0; n < N && !c.r.bad; n++) {
                for (u64 v : S.nodes[n].evidence) if (!want.count(v) || (p.k("honest") >> v & 1)) c.fail("honest-convicted", "node " + std::to_string(n) + " holds validator " + std::to_string(v) + " to have broken the rules, which it did not");
                for (u64 v : want) if (!S.nodes[n].evidence.count(v)) c.fail("equivocator-missed", "node " + std::to_string(n) + " received every attestation and does not see that validator " + std::to_string(v) + " broke the rules");
                look(S, S.nodes[n], c);
                for (auto &s : S.nodes[n].seen)
                    if (!c.r.bad && bytes_of(S.nodes[n].ti, s.o, c) != S.att[s.id].e) c.fail("object-changed", "a stored attestation is not what was received");
                for (size_t v = 0; v < V; v++)
                    if (!c.r.bad && bytes_of(S.nodes[n].tv, S.nodes[n].reg[v], c) != model::enc(TV, S.nodes[n].regv[v])) c.fail("object-changed", "a validator's record is not what was stored");
            }
            if (!c.r.bad) c.stat("probe_converged");
            if (want.size()) c.stat("fault_byzantine_validator", want.size()), faults++;
            c.log.ev(9, want.size(), S.now);
        }
        for (auto &n : S.nodes) halt(n);
        if (faults) c.r.nontrivial = true;
    }
};

int main(int argc, char **argv) {
    no_aslr(argv);
    WWorld w;
    return worker_main(argc, argv, w, true);
}
