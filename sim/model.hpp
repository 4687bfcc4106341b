// An independent model of SSZ (phase0): schema, values, canonical encoding, strict decoding, hash tree root,
// defaults, generation of values, single-leaf changes, and structural damage.  Shares no code with /repo.
#pragma once
#include <deque>
#include <optional>

#include "common.hpp"
#include "sha256ref.hpp"

namespace model {
using sim::Bytes;
using sim::Rng;
using sim::u64;
using sim::u8;

static const char *const TYPE_NAMES[] = {
    "Fork", "ForkData", "Checkpoint", "SigningData", "AttestationData", "IndexedAttestation", "PendingAttestation", "Attestation", "DepositMessage", "DepositData", "Deposit",
    "Eth1Data", "BeaconBlockHeader", "BeaconBlockBody", "BeaconBlock", "SignedBeaconBlockHeader", "SignedBeaconBlock", "ProposerSlashing", "AttesterSlashing",
    "VoluntaryExit", "SignedVoluntaryExit", "Validator", "BeaconState", "B1", "B20", "B256", "B300", "B31", "B32", "B33", "B4", "B48", "B64", "B65", "B8", "B96", "BL1",
    "BL1099511627776", "BL2048", "BL255", "BL256", "BL257", "BL31", "BL5000", "BL513", "BL7", "BL8", "BL9", "BV1", "BV1030", "BV16", "BV255", "BV256", "BV257", "BV31",
    "BV33", "BV4", "BV512", "BV7", "BV8", "BV9", "L(Attestation,1)", "L(Attestation,128)", "L(Attestation,3)", "L(AttesterSlashing,2)", "L(B32,1)", "L(B32,100)",
    "L(B32,16777216)", "L(B32,2)", "L(B32,3)", "L(B32,5)", "L(B32,9)", "L(B4,6)", "L(B48,12)", "L(BV9,5)", "L(Checkpoint,1099511627776)", "L(Checkpoint,3)",
    "L(IndexedAttestation,5)", "L(O,5)", "L(O,70)", "L(PendingAttestation,1024)", "L(U,1)", "L(U,100)", "L(U,1099511627776)", "L(U,16)", "L(U,17)", "L(U,2048)", "L(U,3)",
    "L(U,4)", "L(U,5)", "L(V(U,3),4)", "L(Validator,4)", "O", "U", "V(B1,3)", "V(B32,1)", "V(B32,16)", "V(B32,2)", "V(B32,3)", "V(B32,7)", "V(B48,5)", "V(BV9,4)",
    "V(Checkpoint,3)", "V(O,3)", "V(O,40)", "V(U,1)", "V(U,2)", "V(U,31)", "V(U,33)", "V(U,4)", "V(U,5)", "V(U,64)", "V(U,8)", "V(V(U,3),2)",
    "Mix1", "Mix2", "Solo", "L(Solo,6)", "L(Mix1,3)", "BL0", "L(U,0)", "L(Checkpoint,0)", "L(Solo,0)", "Mix3"
};
static const size_t NAMED = 23, BEACON_STATE = 22, NTYPES = sizeof TYPE_NAMES / sizeof *TYPE_NAMES;

enum Kind { UINT, BOOL, BYTES, BITLIST, BITVEC, VEC, LIST, CONT };
struct Ty {
    Kind k;
    u64 n = 0;  // bytes, bits, length or limit
    const Ty *e = nullptr;
    std::vector<std::pair<std::string, const Ty *>> f;
    bool fixed = true;
    bool open = false;  // no limit was declared (written 0): the library then hashes as if the limit were the next power of two
    u64 size = 0;  // encoded size if fixed, else the smallest encoding
};
struct Val {
    u64 u = 0;
    Bytes b;  // bytes, or one byte per bit
    std::vector<Val> v;
    bool operator==(const Val &) const = default;
};

struct Schema {
    std::deque<Ty> store;
    std::map<std::string, const Ty *> by;
    const Ty *put(Ty t) {
        if ((t.k == LIST || t.k == BITLIST) && !t.n) { t.open = true; t.n = 1ull << 40; }
        switch (t.k) {
            case UINT: t.size = 8; break;
            case BOOL: t.size = 1; break;
            case BYTES: t.size = t.n; break;
            case BITVEC: t.size = (t.n + 7) / 8; break;
            case BITLIST: t.fixed = false; t.size = 1; break;
            case VEC: t.fixed = t.e->fixed; t.size = t.n * t.e->size; break;
            case LIST: t.fixed = false; t.size = 0; break;
            case CONT:
                for (auto &x : t.f) {
                    t.fixed = t.fixed && x.second->fixed;
                    t.size += x.second->size + (x.second->fixed ? 0 : 4);
                }
        }
        store.push_back(t);
        return &store.back();
    }
    static size_t close(const std::string &s, size_t open) {
        int d = 0;
        for (size_t i = open; i < s.size(); i++) {
            if (s[i] == '(') d++;
            if (s[i] == ')' && --d == 0) return i;
        }
        return s.size();
    }
    const Ty *get(const std::string &s) {
        auto it = by.find(s);
        if (it != by.end()) return it->second;
        const Ty *r = nullptr;
        auto num = [&](size_t at) { return strtoull(s.c_str() + at, 0, 10); };
        if (s == "U") r = put({UINT});
        else if (s == "O") r = put({BOOL});
        else if (s[0] == 'B' && s[1] == 'L') r = put({BITLIST, num(2)});
        else if (s[0] == 'B' && s[1] == 'V') r = put({BITVEC, num(2)});
        else if (s[0] == 'B' && isdigit(s[1])) r = put({BYTES, num(1)});
        else if ((s[0] == 'V' || s[0] == 'L') && s[1] == '(') {
            size_t c = s.rfind(',');
            const Ty *e = get(s.substr(2, c - 2));
            r = put({s[0] == 'V' ? VEC : LIST, num(c + 1), e});
        }
        if (!r) {
            fprintf(stderr, "unknown type %s\n", s.c_str());
            _exit(4);
        }
        return by[s] = r;
    }
    void cont(const char *name, std::initializer_list<std::pair<const char *, const char *>> f) {
        Ty t{CONT};
        for (auto &x : f) t.f.push_back({x.first, get(x.second)});
        by[name] = put(t);
    }
    explicit Schema(bool mainnet) {
        // phase0 containers; the numbers are those of the published presets
        auto m = [&](const char *a, const char *b) { return mainnet ? b : a; };
        cont("Fork", {{"previous_version", "B4"}, {"current_version", "B4"}, {"epoch", "U"}});
        cont("ForkData", {{"current_version", "B4"}, {"genesis_validators_root", "B32"}});
        cont("Checkpoint", {{"epoch", "U"}, {"root", "B32"}});
        cont("SigningData", {{"object_root", "B32"}, {"domain", "B32"}});
        cont("AttestationData", {{"slot", "U"}, {"index", "U"}, {"beacon_block_root", "B32"}, {"source", "Checkpoint"}, {"target", "Checkpoint"}});
        cont("IndexedAttestation", {{"attesting_indices", "L(U,2048)"}, {"data", "AttestationData"}, {"signature", "B96"}});
        cont("PendingAttestation", {{"aggregation_bits", "BL2048"}, {"data", "AttestationData"}, {"inclusion_delay", "U"}, {"proposer_index", "U"}});
        cont("Attestation", {{"aggregation_bits", "BL2048"}, {"data", "AttestationData"}, {"signature", "B96"}});
        cont("DepositMessage", {{"pubkey", "B48"}, {"withdrawal_credentials", "B32"}, {"amount", "U"}});
        cont("DepositData", {{"pubkey", "B48"}, {"withdrawal_credentials", "B32"}, {"amount", "U"}, {"signature", "B96"}});
        cont("Deposit", {{"proof", "V(B32,33)"}, {"data", "DepositData"}});
        cont("Eth1Data", {{"deposit_root", "B32"}, {"deposit_count", "U"}, {"block_hash", "B32"}});
        cont("BeaconBlockHeader", {{"slot", "U"}, {"proposer_index", "U"}, {"parent_root", "B32"}, {"state_root", "B32"}, {"body_root", "B32"}});
        cont("SignedBeaconBlockHeader", {{"message", "BeaconBlockHeader"}, {"signature", "B96"}});
        cont("ProposerSlashing", {{"signed_header_1", "SignedBeaconBlockHeader"}, {"signed_header_2", "SignedBeaconBlockHeader"}});
        cont("AttesterSlashing", {{"attestation_1", "IndexedAttestation"}, {"attestation_2", "IndexedAttestation"}});
        cont("VoluntaryExit", {{"epoch", "U"}, {"validator_index", "U"}});
        cont("SignedVoluntaryExit", {{"message", "VoluntaryExit"}, {"signature", "B96"}});
        cont("BeaconBlockBody", {{"randao_reveal", "B96"}, {"eth1_data", "Eth1Data"}, {"graffiti", "B32"}, {"proposer_slashings", "L(ProposerSlashing,16)"},
                                 {"attester_slashings", "L(AttesterSlashing,2)"}, {"attestations", "L(Attestation,128)"}, {"deposits", "L(Deposit,16)"},
                                 {"voluntary_exits", "L(SignedVoluntaryExit,16)"}});
        cont("BeaconBlock", {{"slot", "U"}, {"proposer_index", "U"}, {"parent_root", "B32"}, {"state_root", "B32"}, {"body", "BeaconBlockBody"}});
        cont("SignedBeaconBlock", {{"message", "BeaconBlock"}, {"signature", "B96"}});
        cont("Validator", {{"pubkey", "B48"}, {"withdrawal_credentials", "B32"}, {"effective_balance", "U"}, {"slashed", "O"}, {"activation_eligibility_epoch", "U"},
                           {"activation_epoch", "U"}, {"exit_epoch", "U"}, {"withdrawable_epoch", "U"}});
        // the simulator's own (sim/glue.hpp)
        cont("Mix1", {{"a", "BL9"}, {"b", "O"}, {"c", "L(O,5)"}, {"d", "L(Attestation,3)"}, {"e", "U"}, {"f", "BL2048"}});
        cont("Mix2", {{"h", "B3"}, {"m", "Mix1"}, {"n", "BL1"}, {"o", "L(U,6)"}, {"q", "L(B32,3)"}});
        cont("Solo", {{"only", "BL20"}});
        cont("Mix3", {{"r", "L(U,0)"}, {"s", "BL0"}, {"t", "L(B32,0)"}, {"u", "L(Solo,0)"}, {"w", "L(O,0)"}});
        cont("BeaconState", {{"genesis_time", "U"}, {"genesis_validators_root", "B32"}, {"slot", "U"}, {"fork", "Fork"}, {"latest_block_header", "BeaconBlockHeader"},
                             {"block_roots", m("V(B32,64)", "V(B32,8192)")}, {"state_roots", m("V(B32,64)", "V(B32,8192)")}, {"historical_roots", "L(B32,16777216)"},
                             {"eth1_data", "Eth1Data"}, {"eth1_data_votes", m("L(Eth1Data,32)", "L(Eth1Data,2048)")}, {"eth1_deposit_index", "U"},
                             {"validators", "L(Validator,1099511627776)"}, {"balances", "L(U,1099511627776)"}, {"randao_mixes", m("V(B32,64)", "V(B32,65536)")},
                             {"slashings", m("V(U,64)", "V(U,8192)")}, {"previous_epoch_attestations", m("L(PendingAttestation,1024)", "L(PendingAttestation,4096)")},
                             {"current_epoch_attestations", m("L(PendingAttestation,1024)", "L(PendingAttestation,4096)")}, {"justification_bits", "BV4"},
                             {"previous_justified_checkpoint", "Checkpoint"}, {"current_justified_checkpoint", "Checkpoint"}, {"finalized_checkpoint", "Checkpoint"}});
    }
};

// ---- values ------------------------------------------------------------------------------------
inline Val def(const Ty *t) {
    Val v;
    switch (t->k) {
        case UINT: case BOOL: case BITLIST: case LIST: break;
        case BYTES: case BITVEC: v.b.assign(t->n, 0); break;
        case VEC: v.v.assign(t->n, def(t->e)); break;
        case CONT: for (auto &x : t->f) v.v.push_back(def(x.second));
    }
    return v;
}
inline u64 gen_count(Rng &r, u64 limit, u64 cap) {
    cap = std::min(cap, limit);
    u64 c;
    if (cap > 5000 && r.chance(2, 3)) return std::min(cap, r.pick<u64>({cap, cap - r.below(9), r.range(65535, 65538), r.range(32767, 32769), r.range(8191, 8193), r.range(16383, 16385), r.below(cap + 1)}));
    switch (r.below(12)) {
        case 0: case 1: c = 0; break;
        case 2: c = 1; break;
        case 3: c = 2; break;
        case 4: case 5: c = r.range(2, 9); break;
        case 6: case 7: c = (1ull << (cap > 5000 ? r.range(11, 17) : r.below(12))) + r.below(3) - 1; break;
        case 8: c = limit; break;
        case 9: c = limit - 1; break;
        default: c = r.below(cap + 1);
    }
    return c > cap ? r.below(cap + 1) : c;
}
inline bool mutate(const Ty *t, Val &v, Rng &r);
// Elements that repeat, or repeat with one leaf changed: what a cache or a shortcut would confuse.
inline void echo(const Ty *e, std::vector<Val> &v, size_t from, Rng &r) {
    if (v.size() - from < 2) return;
    u64 how = r.below(4);
    size_t step = 1ull << r.below(4);
    if (e->k == UINT && r.chance(1, 3)) {  // in order, as indices are
        u64 by = r.chance(1, 2) ? 1 : r.next() >> r.range(8, 60);
        if (v[from].u > 1ull << 62) v[from].u >>= 40;
        for (size_t i = from + 1; i < v.size(); i++) v[i].u = v[i - 1].u + (r.chance(3, 4) ? by : by + r.below(5));
        return;
    }
    for (size_t i = from + 1; i < v.size(); i++) switch (how) {
            case 0: if (r.chance(1, 2)) v[i] = v[i - 1]; break;
            case 1: v[i] = v[from + r.below(i - from)]; break;
            case 2: if (i - from >= step) v[i] = v[i - step]; break;
            default: if (r.chance(1, 2)) { v[i] = v[i - 1]; mutate(e, v[i], r); }
        }
}
inline Val gen(const Ty *t, Rng &r, long &budget) {
    Val v;
    switch (t->k) {
        case UINT:
            switch (r.below(8)) {
                case 0: v.u = 0; break;
                case 1: v.u = r.below(3); break;
                case 2: v.u = r.pick<u64>({255, 256, 65535, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 32000000000ull, 1000000000, 31, 32, 63, 64, 2048, 8192}); break;
                case 3: v.u = ~0ull; break;
                case 4: v.u = 1ull << r.below(64); break;
                default: v.u = r.next() >> r.below(64);
            }
            budget -= 8;
            break;
        case BOOL: v.u = r.below(2); budget -= 1; break;
        case BYTES:
            v.b.assign(t->n, 0);
            switch (r.below(8)) {
                case 0: break;
                case 1: std::fill(v.b.begin(), v.b.end(), 0xff); break;
                case 2: v.b[r.below(t->n)] = 1 << r.below(8); break;
                case 3: v.b[t->n - 1] = r.next(); break;
                case 4: if (r.chance(1, 2)) v.b[0] = 0xc0; else for (auto &x : v.b) x = 0x61 + r.below(6); break;
                default: r.fill(v.b.data(), v.b.size());
            }
            budget -= t->n;
            break;
        case BITVEC:
        case BITLIST: {
            u64 n = t->k == BITVEC ? t->n : gen_count(r, t->n, std::max<long>(3, budget > 60000 ? std::min<long>(700000, budget) : std::min<long>(20000, budget * 8)));
            v.b.assign(n, 0);
            switch (r.below(6)) {
                case 0: break;
                case 1: std::fill(v.b.begin(), v.b.end(), 1); break;
                case 2: if (n) v.b[r.below(n)] = 1; break;
                case 3: if (n) v.b[n - 1] = 1; break;
                default: for (auto &x : v.b) x = r.below(2);
            }
            budget -= n / 8 + 1;
            break;
        }
        case VEC:
            for (u64 i = 0; i < t->n; i++) v.v.push_back(gen(t->e, r, budget));
            if (r.chance(1, 4)) echo(t->e, v.v, 0, r);
            break;
        case LIST: {
            u64 each = t->e->size + (t->e->fixed ? 0 : 4);
            u64 n = gen_count(r, t->n, std::max<long>(r.below(3), budget / (long)each));
            for (u64 i = 0; i < n; i++) v.v.push_back(gen(t->e, r, budget));
            if (r.chance(1, 4)) echo(t->e, v.v, 0, r);
            break;
        }
        case CONT:
            for (auto &x : t->f) v.v.push_back(gen(x.second, r, budget));
            if (t->f.size() > 1 && r.chance(1, 6))  // two parts of one type hold the same
                for (size_t i = 1; i < t->f.size(); i++)
                    if (t->f[i].second == t->f[i - 1].second && r.chance(2, 3)) v.v[i] = v.v[i - 1];
            break;
    }
    return v;
}
// A value in which one list, wherever it lies, is near a length that matters: its capacity, or where a counter turns over.
// What lies beside it is small.
inline Val gen_full(const Ty *t, Rng &r, u64 room) {
    auto count = [&](u64 limit, u64 each) {
        u64 cap = std::min(limit, std::max<u64>(1, room / each)), p;
        switch (r.below(6)) {
            case 0: p = limit; break;
            case 1: p = limit - 1; break;
            case 2: p = limit - r.below(std::min<u64>(limit, 9)); break;
            case 3: p = (1ull << r.below(14)) + r.below(3) - 1; break;
            case 4: p = r.range(254, 258); break;
            default: p = cap;
        }
        return p > cap ? cap - r.below(std::min<u64>(cap, 3)) : p;
    };
    Val v;
    long little = 60;
    if (t->fixed) return gen(t, r, little);
    switch (t->k) {
        case BITLIST:
            v.b.assign(count(t->n, 1), 0);
            if (r.chance(1, 5)) std::fill(v.b.begin(), v.b.end(), r.below(2)); else for (auto &x : v.b) x = r.below(2);
            break;
        case LIST:
            if (!t->e->fixed && r.chance(1, 3)) {
                for (u64 i = r.range(1, 3), k = r.below(i); i--;) v.v.push_back(i == k ? gen_full(t->e, r, room) : gen(t->e, r, little));
                while (v.v.size() > t->n) v.v.pop_back();
                break;
            }
            for (u64 n = count(t->n, t->e->size + (t->e->fixed ? 0 : 4)); n--;) { little = 30; v.v.push_back(gen(t->e, r, little)); }
            if (r.chance(1, 6)) echo(t->e, v.v, 0, r);
            break;
        case CONT: {
            std::vector<size_t> var;
            for (size_t i = 0; i < t->f.size(); i++) if (!t->f[i].second->fixed) var.push_back(i);
            size_t at = var[r.below(var.size())];
            for (size_t i = 0; i < t->f.size(); i++) { little = r.chance(1, 3) ? 150 : 1; v.v.push_back(i == at ? gen_full(t->f[i].second, r, room) : gen(t->f[i].second, r, little)); }
            break;
        }
        default: return gen(t, r, little);
    }
    return v;
}
// changes exactly one leaf (or one list length); false if this branch cannot change
inline bool mutate(const Ty *t, Val &v, Rng &r) {
    switch (t->k) {
        case UINT: v.u ^= 1ull << r.below(64); return true;
        case BOOL: v.u ^= 1; return true;
        case BYTES: v.b[r.chance(1, 3) ? t->n - 1 : r.below(t->n)] ^= 1 << r.below(8); return true;
        case BITVEC: v.b[r.chance(1, 3) ? t->n - 1 : r.below(t->n)] ^= 1; return true;
        case BITLIST:
            if (v.b.empty() || (v.b.size() < t->n && r.chance(1, 3))) { v.b.push_back(r.below(2)); return true; }
            if (r.chance(1, 3)) { v.b.pop_back(); return true; }
            v.b[r.chance(1, 3) ? v.b.size() - 1 : r.below(v.b.size())] ^= 1;
            return true;
        case VEC: return mutate(t->e, v.v[r.chance(1, 3) ? t->n - 1 : r.below(t->n)], r);
        case LIST:
            if (v.v.empty() || (v.v.size() < t->n && r.chance(1, 4))) { v.v.push_back(def(t->e)); return true; }
            if (r.chance(1, 4)) { v.v.pop_back(); return true; }
            return mutate(t->e, v.v[r.chance(1, 3) ? v.v.size() - 1 : r.below(v.v.size())], r);
        case CONT: { size_t i = r.below(t->f.size()); return mutate(t->f[i].second, v.v[i], r); }
    }
    return false;
}

// ---- encoding, with optional structural damage at one site -------------------------------------
struct Mut {
    long target = -1, seen = 0;  // target < 0: count only
    u64 seed = 0;
    const char *what = "";
    bool here() { return seen++ == target; }
};
inline void put32(Bytes &o, u64 x) { for (int i = 0; i < 4; i++) o.push_back(u8(x >> (8 * i))); }
inline Bytes enc(const Ty *t, const Val &v, Mut *m = nullptr);
inline Bytes enc_parts(const std::vector<std::pair<const Ty *, const Val *>> &ps, Mut *m) {
    Bytes fixed, var;
    std::vector<size_t> offpos;
    u64 fl = 0;
    for (auto &p : ps) fl += p.first->fixed ? p.first->size : 4;
    std::vector<u64> offs;
    for (auto &p : ps) {
        Bytes e = enc(p.first, *p.second, m);
        if (p.first->fixed) fixed.insert(fixed.end(), e.begin(), e.end());
        else {
            if (m && m->here()) {  // trailing or missing bytes of one variable part
                Rng r(m->seed);
                if (r.chance(1, 2) || e.empty()) { for (u64 k = r.range(1, 9); k--;) e.push_back(r.pick<u8>({0, 1, 0xff, 0x80})); m->what = "bytes added to a part"; }
                else { e.resize(e.size() - r.range(1, std::min<u64>(e.size(), 9))); m->what = "bytes missing from a part"; }
            }
            offpos.push_back(fixed.size());
            offs.push_back(fl + var.size());
            put32(fixed, 0);
            var.insert(var.end(), e.begin(), e.end());
        }
    }
    for (size_t i = 0; i < offs.size(); i++) {
        if (m && m->here()) {
            Rng r(m->seed);
            u64 total = fl + var.size();
            // whole elements of the part before: its length stays one a decoder can live with
            auto unit = [](const Ty *t) -> u64 { return (t->k == LIST || t->k == VEC) ? (t->e->fixed ? t->e->size : 4) : 1; };
            std::vector<const Ty *> vt;
            for (auto &p : ps) if (!p.first->fixed) vt.push_back(p.first);
            switch (r.below(i ? 14 : 9)) {
                case 9: case 10: case 11: {  // goes back behind the offset before it, but not into the fixed part
                    u64 u = unit(vt[i - 1]), k = (offs[i - 1] - fl) / u;
                    offs[i] = k ? offs[i - 1] - u * r.range(1, r.chance(1, 2) ? std::min<u64>(k, 3) : k) : offs[i - 1];
                    break;
                }
                case 12: offs[i] += unit(vt[i - 1]) * r.range(1, 3); break;
                case 13: offs[i] -= std::min(offs[i] - offs[i - 1], unit(vt[i - 1]) * r.range(1, 3)); break;
                case 0: offs[i] += 1; break;
                case 1: offs[i] -= 1; break;
                case 2: offs[i] += r.range(1, 64); break;
                case 3: offs[i] = r.below(fl + 1); break;
                case 4: offs[i] = total; break;
                case 5: offs[i] = total + r.range(1, 5); break;
                case 6: offs[i] = r.pick<u64>({0, 1, 3, 4, 0x7fffffff, 0x80000000ull, 0xfffffffcull, 0xffffffffull}); break;
                case 7: if (i + 1 < offs.size()) std::swap(offs[i], offs[i + 1]); else offs[i] ^= 4; break;
                case 8: if (i) offs[i] = offs[i - 1] - r.range(1, 4); else for (auto &o : offs) o += 4; break;
            }
            m->what = "offset damaged";
        }
    }
    if (m && !offs.empty() && m->here()) {  // a gap between the fixed and the variable part
        Rng r(m->seed);
        u64 g = r.range(1, 8);
        for (auto &o : offs) o += g;
        var.insert(var.begin(), g, 0xee);
        m->what = "gap before the variable part";
    }
    for (size_t i = 0; i < offs.size(); i++)
        for (int k = 0; k < 4; k++) fixed[offpos[i] + k] = u8(offs[i] >> (8 * k));
    fixed.insert(fixed.end(), var.begin(), var.end());
    return fixed;
}
inline Bytes enc(const Ty *t, const Val &v, Mut *m) {
    Bytes o;
    switch (t->k) {
        case UINT: for (int i = 0; i < 8; i++) o.push_back(u8(v.u >> (8 * i))); break;
        case BOOL:
            o.push_back(v.u != 0);
            if (m && m->here()) { o[0] = Rng(m->seed).pick<u8>({2, 3, 0x80, 0xff, 0x10}); m->what = "boolean neither 0 nor 1"; }
            break;
        case BYTES: o = v.b; break;
        case BITVEC:
            o.assign(t->size, 0);
            for (u64 i = 0; i < t->n; i++) o[i / 8] |= v.b[i] << (i % 8);
            if (t->n % 8 && m && m->here()) { o.back() |= 1 << Rng(m->seed).range(t->n % 8, 7); m->what = "padding bit set"; }
            break;
        case BITLIST: {
            Bytes bits = v.b;
            if (m && t->n < 100000 && m->here()) { Rng r(m->seed); bits.resize(t->n + r.range(1, 9), r.below(2)); m->what = "bitlist over its limit"; }
            o.assign(bits.size() / 8 + 1, 0);
            for (size_t i = 0; i < bits.size(); i++) o[i / 8] |= bits[i] << (i % 8);
            o.back() |= 1 << (bits.size() % 8);
            if (m && m->here()) {
                Rng r(m->seed);
                switch (r.below(3)) {
                    case 0: o.back() = 0; m->what = "bitlist without delimiter"; break;
                    case 1: o.clear(); m->what = "bitlist of no bytes"; break;
                    case 2: o.push_back(0); m->what = "bitlist with a zero byte appended"; break;
                }
            }
            break;
        }
        case VEC:
        case LIST: {
            const std::vector<Val> *vs = &v.v;
            std::vector<Val> more;
            if (t->k == LIST && m && t->n < 3000 && t->n * (t->e->size + 4) < 300000 && m->here()) {
                Rng r(m->seed);
                more = v.v;
                Val d = more.empty() ? def(t->e) : more.back();
                more.resize(t->n + r.range(1, 2), d);
                vs = &more;
                m->what = "list over its limit";
            }
            if (t->e->fixed) {
                for (auto &x : *vs) { Bytes e = enc(t->e, x, m); o.insert(o.end(), e.begin(), e.end()); }
                if (t->k == LIST && t->e->size > 1 && m && m->here()) {
                    Rng r(m->seed);
                    u64 k = r.range(1, t->e->size - 1);
                    if (o.empty() || r.chance(1, 2)) o.insert(o.end(), k, u8(r.next())); else o.resize(o.size() - k);
                    m->what = "list with part of an element";
                }
            } else {
                std::vector<std::pair<const Ty *, const Val *>> ps;
                for (auto &x : *vs) ps.push_back({t->e, &x});
                o = enc_parts(ps, m);
            }
            break;
        }
        case CONT: {
            std::vector<std::pair<const Ty *, const Val *>> ps;
            for (size_t i = 0; i < t->f.size(); i++) ps.push_back({t->f[i].second, &v.v[i]});
            o = enc_parts(ps, m);
            break;
        }
    }
    return o;
}

// ---- strict decoding ---------------------------------------------------------------------------
inline u64 get32(const u8 *p) { return p[0] | p[1] << 8 | p[2] << 16 | (u64)p[3] << 24; }
// what the k-th piece of the public interface must say (tell() in sim/glue.hpp); false: no such piece
inline bool tell(const Ty *t, const std::string &name, const Val &v, u64 k, Bytes &out) {
    auto num = [&](u64 u) { out.resize(8); for (int i = 0; i < 8; i++) out[i] = u8(u >> (8 * i)); return true; };
    out.clear();
    switch (t->k) {
        case UINT: return k < 4 && num(v.u);
        case BOOL: out = {u8(v.u)}; return k < 2;
        case BITLIST: return k == 0 && num(v.b.size());
        case BITVEC: return false;
        case BYTES:
            if (k == 7) out = {1, 0, 0};
            else out = v.b;
            return k < 8;
        case VEC: case LIST:
            if (k < 2) return num(v.v.size());
            k -= 2;
            if (k >= 2 * v.v.size()) return false;
            out = enc(t->e, v.v[k % v.v.size()]);
            return true;
        case CONT:
            if (name == "Validator" || k >= t->f.size()) return false;  // a validator's parts are its own
            out = enc(t->f[k].second, v.v[k]);
            return true;
    }
    return false;
}
inline bool dec(const Ty *t, const u8 *p, u64 n, Val &v) {
    v = Val{};
    switch (t->k) {
        case UINT:
            if (n != 8) return false;
            for (int i = 7; i >= 0; i--) v.u = v.u << 8 | p[i];
            return true;
        case BOOL:
            if (n != 1 || p[0] > 1) return false;
            v.u = p[0];
            return true;
        case BYTES:
            if (n != t->n) return false;
            v.b.assign(p, p + n);
            return true;
        case BITVEC:
            if (n != t->size) return false;
            if (t->n % 8 && p[n - 1] >> (t->n % 8)) return false;
            for (u64 i = 0; i < t->n; i++) v.b.push_back(p[i / 8] >> (i % 8) & 1);
            return true;
        case BITLIST: {
            if (!n || !p[n - 1]) return false;
            int top = 7;
            while (!(p[n - 1] >> top & 1)) top--;
            u64 bits = (n - 1) * 8 + top;
            if (bits > t->n) return false;
            for (u64 i = 0; i < bits; i++) v.b.push_back(p[i / 8] >> (i % 8) & 1);
            return true;
        }
        case VEC:
        case LIST: {
            if (t->e->fixed) {
                if (n % t->e->size) return false;
                u64 c = n / t->e->size;
                if (t->k == VEC ? c != t->n : c > t->n) return false;
                v.v.resize(c);
                for (u64 i = 0; i < c; i++)
                    if (!dec(t->e, p + i * t->e->size, t->e->size, v.v[i])) return false;
                return true;
            }
            if (!n) return t->k == LIST;
            if (n < 4) return false;
            u64 first = get32(p);
            if (first % 4 || !first || first > n) return false;
            u64 c = first / 4;
            if (c > t->n) return false;
            v.v.resize(c);
            for (u64 i = 0; i < c; i++) {
                u64 a = get32(p + 4 * i), b = i + 1 < c ? get32(p + 4 * (i + 1)) : n;
                if (a > b || b > n) return false;
                if (!dec(t->e, p + a, b - a, v.v[i])) return false;
            }
            return true;
        }
        case CONT: {
            u64 fl = 0;
            for (auto &x : t->f) fl += x.second->fixed ? x.second->size : 4;
            if (n < fl || (t->fixed && n != fl)) return false;
            std::vector<u64> offs;
            u64 at = 0;
            for (auto &x : t->f) {
                if (!x.second->fixed) offs.push_back(get32(p + at));
                at += x.second->fixed ? x.second->size : 4;
            }
            for (size_t i = 0; i < offs.size(); i++)
                if (offs[i] > n || (i ? offs[i] < offs[i - 1] : offs[i] != fl)) return false;
            offs.push_back(n);
            v.v.resize(t->f.size());
            size_t j = 0;
            at = 0;
            for (size_t i = 0; i < t->f.size(); i++) {
                const Ty *e = t->f[i].second;
                if (e->fixed) {
                    if (!dec(e, p + at, e->size, v.v[i])) return false;
                    at += e->size;
                } else {
                    if (!dec(e, p + offs[j], offs[j + 1] - offs[j], v.v[i])) return false;
                    j++;
                    at += 4;
                }
            }
            return true;
        }
    }
    return false;
}

// ---- hash tree root ----------------------------------------------------------------------------
using Chunk = std::array<u8, 32>;
inline Chunk h2(const Chunk &a, const Chunk &b) {
    u8 in[64];
    memcpy(in, a.data(), 32);
    memcpy(in + 32, b.data(), 32);
    Chunk o;
    ref::Sha256::hash64(o.data(), in);
    return o;
}
inline const Chunk &zero(int d) {
    static std::vector<Chunk> z = [] {
        std::vector<Chunk> r(66, Chunk{});
        for (int i = 1; i < 66; i++) r[i] = h2(r[i - 1], r[i - 1]);
        return r;
    }();
    return z[d];
}
inline int ceil_log2(u64 n) {
    int d = 0;
    while (d < 64 && (d == 64 ? ~0ull : 1ull << d) < n) d++;
    return d;
}
inline Chunk merkle(std::vector<Chunk> c, u64 limit) {  // limit in chunks, at least c.size()
    int depth = ceil_log2(std::max<u64>(1, limit));
    if (c.empty()) return zero(depth);
    for (int d = 0; d < depth; d++) {
        if (c.size() % 2) c.push_back(zero(d));
        for (size_t i = 0; i < c.size() / 2; i++) c[i] = h2(c[2 * i], c[2 * i + 1]);
        c.resize(c.size() / 2);
    }
    return c[0];
}
inline std::vector<Chunk> pack(const Bytes &b) {
    std::vector<Chunk> c((b.size() + 31) / 32, Chunk{});
    for (size_t i = 0; i < b.size(); i++) c[i / 32][i % 32] = b[i];
    return c;
}
inline Chunk mixin(const Chunk &r, u64 n) {
    Chunk l{};
    for (int i = 0; i < 8; i++) l[i] = u8(n >> (8 * i));
    return h2(r, l);
}
inline bool basic(const Ty *t) { return t->k == UINT || t->k == BOOL; }
inline Chunk root(const Ty *t, const Val &v) {
    switch (t->k) {
        case UINT: case BOOL: case BYTES: case BITVEC: { auto c = pack(enc(t, v)); return merkle(c, c.size()); }
        case BITLIST: {
            Bytes o((v.b.size() + 7) / 8, 0);
            for (size_t i = 0; i < v.b.size(); i++) o[i / 8] |= v.b[i] << (i % 8);
            auto c = pack(o);
            return mixin(merkle(c, t->open ? c.size() : (t->n + 255) / 256), v.b.size());
        }
        case VEC:
        case LIST: {
            std::vector<Chunk> c;
            u64 limit;
            if (basic(t->e)) {
                Bytes o;
                for (auto &x : v.v) { Bytes e = enc(t->e, x); o.insert(o.end(), e.begin(), e.end()); }
                c = pack(o);
                limit = (t->n * t->e->size + 31) / 32;
            } else {
                for (auto &x : v.v) c.push_back(root(t->e, x));
                limit = t->n;
            }
            Chunk r = merkle(c, t->open ? c.size() : limit);
            return t->k == LIST ? mixin(r, v.v.size()) : r;
        }
        case CONT: {
            std::vector<Chunk> c;
            for (size_t i = 0; i < t->f.size(); i++) c.push_back(root(t->f[i].second, v.v[i]));
            return merkle(c, c.size());
        }
    }
    return {};
}

// ---- damage ------------------------------------------------------------------------------------
enum Fate { F_INTACT, F_STRUCT, F_TRUNC, F_EXTEND, F_FLIP, F_BYTES, F_WORD, F_SPLICE, F_ZEROED, F_DUPBLOCK, F_EMPTY, F_NOISE, F_N };
inline const char *fate_name(u64 f) {
    static const char *const n[] = {"intact", "structural", "truncated", "extended", "bit_flips", "bytes_overwritten", "word_overwritten", "spliced", "range_zeroed", "block_moved", "emptied", "noise"};
    return f < F_N ? n[f] : "?";
}
inline Bytes damage(const Ty *t, const Val &v, u64 fate, u64 seed, const Bytes &other, const char **what) {
    Rng r(seed);
    Bytes b;
    *what = fate_name(fate);
    if (fate == F_STRUCT) {
        Mut m;
        enc(t, v, &m);
        if (m.seen) {
            Mut a;
            a.target = r.below(m.seen);
            a.seed = r.next();
            b = enc(t, v, &a);
            *what = a.what;
            return b;
        }
        fate = F_TRUNC + r.below(4);
    }
    b = enc(t, v);
    u64 n = b.size();
    switch (fate) {
        case F_TRUNC: if (n) b.resize(r.chance(1, 2) ? n - 1 - r.below(std::min<u64>(n, 8)) : r.below(n)); break;
        case F_EXTEND: for (u64 k = r.chance(1, 2) ? 1 : r.range(1, 200); k--;) b.push_back(r.chance(1, 2) ? 0 : r.next()); break;
        case F_FLIP: for (u64 k = r.range(1, 3); n && k--;) b[r.chance(1, 4) ? n - 1 : r.below(n)] ^= 1 << r.below(8); break;
        case F_BYTES: for (u64 k = r.range(1, 6); n && k--;) b[r.chance(1, 4) ? n - 1 : r.below(n)] = r.pick<u8>({0, 1, 2, 0x7f, 0x80, 0xff, u8(r.next())}); break;
        case F_WORD:
            if (n >= 4) {
                u64 at = r.below(n - 3);
                if (r.chance(1, 2)) at &= ~3ull;
                u64 w = r.pick<u64>({0, 1, 3, 4, 5, n, n - 1, n + 1, n - 4, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0xfffffffcull, r.below(n + 1), get32(&b[at]) + 4, get32(&b[at]) - 1});
                for (int k = 0; k < 4; k++) b[at + k] = u8(w >> (8 * k));
            }
            break;
        case F_SPLICE: {
            u64 cut = n ? r.below(n) : 0;
            u64 oc = r.chance(1, 2) ? std::min<u64>(cut, other.size()) : r.below(other.size() + 1);
            b.resize(cut);
            b.insert(b.end(), other.begin() + oc, other.end());
            break;
        }
        case F_ZEROED: if (n) { u64 a = r.below(n), l = r.range(1, n - a); std::fill(b.begin() + a, b.begin() + a + l, r.chance(1, 3) ? 0xff : 0); } break;
        case F_DUPBLOCK: if (n) {
            u64 a = r.below(n), l = std::min<u64>(r.range(1, n - a), 300);
            Bytes blk(b.begin() + a, b.begin() + a + l);
            if (r.chance(1, 2)) b.erase(b.begin() + a, b.begin() + a + l);
            if (r.chance(3, 4)) b.insert(b.begin() + r.below(b.size() + 1), blk.begin(), blk.end());
            break;
        }
        case F_EMPTY: b.clear(); break;
        case F_NOISE: b.resize(r.chance(1, 2) ? n : r.below(200)); r.fill(b.data(), b.size()); break;
    }
    return b;
}

// ---- the spelling of the consensus specification tests: maps, sequences, decimal integers, 0x strings -----
// With a Mut one site is damaged so that the text denotes no value of the type.
inline std::string spell_hex(const Bytes &b, Rng &r) {
    static const char lo[] = "0123456789abcdef", up[] = "0123456789ABCDEF";
    const char *d = r.chance(1, 6) ? up : lo;
    const char *q = r.pick<const char *>({"'", "'", "\"", ""});
    std::string s = std::string(q) + "0x";
    for (u8 x : b) { s += d[x >> 4]; s += d[x & 15]; }
    return s + q;
}
inline void spell(const Ty *t, const Val &v, Rng &r, Mut *m, std::string &o);
// Another kind of node, sometimes with the very content that belongs there.
inline void wrong_kind(const Ty *t, const Val &v, Rng &q, Rng &r, std::string &o) {
    static const char *const notseq[] = {"7", "abc", "'0x00'", "{a: 1}", "~", "''", "{}"}, *const notscalar[] = {"[]", "{}", "[1]", "{a: 1}", "[[]]"}, *const notmap[] = {"7", "abc", "[]", "~", "''", "'0x00'"};
    bool seq = t->k == VEC || t->k == LIST, map = t->k == CONT, inside = q.chance(1, 2);
    if (!inside) { o += map ? notmap[q.below(6)] : seq ? notseq[q.below(7)] : notscalar[q.below(5)]; return; }
    if (map) {  // the values in their order
        o += "[";
        for (size_t i = 0; i < t->f.size(); i++) { if (i) o += ", "; spell(t->f[i].second, v.v[i], r, nullptr, o); }
        o += "]";
    } else if (seq && v.v.size() == 1 && t->e->k != VEC && t->e->k != LIST && q.chance(1, 2)) spell(t->e, v.v[0], r, nullptr, o);  // the element alone
    else if (seq) {  // numbered elements
        o += "{";
        for (size_t i = 0; i < v.v.size() && i < 200; i++) { if (i) o += ", "; o += std::to_string(i) + ": "; spell(t->e, v.v[i], r, nullptr, o); }
        o += "}";
    } else {
        bool m = q.chance(1, 2);
        o += m ? "{0: " : "[";
        spell(t, v, r, nullptr, o);
        o += m ? "}" : "]";
    }
}
inline void spell(const Ty *t, const Val &v, Rng &r, Mut *m, std::string &o) {
    switch (t->k) {
        case UINT:
            if (m && m->here()) {
                Rng q(m->seed);
                m->what = "not a 64-bit integer";
                if (q.chance(1, 5)) { wrong_kind(t, v, q, r, o); break; }
                if (q.chance(1, 4)) { o += std::to_string(q.range(1, 9)); for (u64 k = q.range(20, 40); k--;) o += char('0' + q.below(10)); break; }
                static const char *const no[] = {"18446744073709551616", "99999999999999999999999", "abc", "-1", "''", "1x", "[]", "{}", "1.5", "~"};
                o += no[q.below(sizeof no / sizeof *no)];
            } else o += r.chance(1, 10) ? "'" + std::to_string(v.u) + "'" : std::to_string(v.u);
            break;
        case BOOL:
            if (m && m->here()) { static const char *const no[] = {"2", "maybe", "[]", "''", "0x01", "1"}; Rng q(m->seed); m->what = "not a boolean"; if (q.chance(1, 4)) wrong_kind(t, v, q, r, o); else o += no[q.below(6)]; }
            else o += v.u ? "true" : "false";
            break;
        case BYTES:
            if (m && m->here()) {
                Rng q(m->seed);
                Bytes b = v.b;
                if (q.chance(2, 3)) { for (u64 k = q.range(1, 33); k--;) b.push_back(q.chance(1, 2) ? 0 : q.next()); o += spell_hex(b, r); m->what = "more bytes than the field holds"; }
                else { wrong_kind(t, v, q, r, o); m->what = "no byte string"; }
            } else o += spell_hex(v.b, r);
            break;
        case BITVEC:
            if (m && m->here()) {
                Rng q(m->seed);
                Bytes b = enc(t, v);
                if (q.chance(1, 3)) { wrong_kind(t, v, q, r, o); m->what = "no byte string"; break; }
                if (t->n % 8 && q.chance(1, 2)) b.back() |= 1 << q.range(t->n % 8, 7);
                else for (u64 k = q.range(1, 5); k--;) b.push_back(q.chance(1, 2) ? 0 : q.next());
                o += spell_hex(b, r);
                m->what = "more bits than the vector holds";
            } else o += spell_hex(enc(t, v), r);
            break;
        case BITLIST:
            if (m && m->here()) {
                Rng q(m->seed);
                if (t->n < 100000 && q.chance(1, 2)) {
                    Val w = v;
                    w.b.resize(t->n + q.range(1, 9), q.below(2));
                    o += spell_hex(enc(t, w), r);
                    m->what = "more bits than the list holds";
                } else if (q.chance(1, 2)) { Bytes b = enc(t, v); b.back() = 0; o += spell_hex(b, r); m->what = "bitlist without delimiter"; }
                else { wrong_kind(t, v, q, r, o); m->what = "no byte string"; }
            } else o += spell_hex(enc(t, v), r);
            break;
        case VEC:
        case LIST: {
            size_t n = v.v.size();
            bool more = false;
            if (m && m->here()) {
                Rng q(m->seed);
                u64 room = 40000 / (t->e->fixed ? t->e->size + 8 : 200);
                if (t->k == VEC && q.chance(2, 3)) { n = n > 1 && q.chance(1, 2) ? n - 1 : n + 1; more = true; m->what = "wrong number of elements in a vector"; }
                else if (t->k == LIST && !t->open && t->n < room && q.chance(2, 3)) { n = t->n + q.range(1, 3); more = true; m->what = "more elements than the list holds"; }
                if (!more) { wrong_kind(t, v, q, r, o); m->what = "no sequence"; break; }
            }
            o += "[";
            Val filler = def(t->e);
            for (size_t i = 0; i < n; i++) {
                if (i) o += r.chance(1, 9) ? " ,\n  " : ", ";
                spell(t->e, i < v.v.size() ? v.v[i] : v.v.empty() ? filler : v.v[i % v.v.size()], r, m, o);
            }
            o += "]";
            break;
        }
        case CONT: {
            std::vector<size_t> ord;
            for (size_t i = 0; i < t->f.size(); i++) ord.push_back(i);
            if (r.chance(1, 3)) for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
            size_t gone = ord.size();
            bool rename = false;
            if (m && m->here()) {
                Rng q(m->seed);
                if (q.chance(1, 4)) { wrong_kind(t, v, q, r, o); m->what = "no map"; break; }
                gone = q.below(ord.size());
                rename = q.chance(1, 2);
                m->what = "field missing";
            }
            o += "{";
            bool first = true;
            for (size_t i : ord) {
                if (i == gone && !rename) continue;
                if (!first) o += ", ";
                first = false;
                o += t->f[i].first;
                if (i == gone) o += "_";
                o += ": ";
                spell(t->f[i].second, v.v[i], r, m, o);
            }
            o += "}";
            break;
        }
    }
}
}  // namespace model
