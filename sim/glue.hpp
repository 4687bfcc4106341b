// One node: every type of the library behind TypeOps.  Compiled against the working tree.
#include <cstring>
#include <memory>
#include <new>
#include <sstream>

#include "beacon-chain/attestation.hpp"
#include "beacon-chain/beacon_block.hpp"
#include "beacon-chain/beacon_state.hpp"
#include "beacon-chain/deposits.hpp"
#include "beacon-chain/eth1data.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/boolean.hpp"
#include "common/bytes.hpp"
#include "common/containers.hpp"
#include "common/slot.hpp"
#include "ssz/hasher.hpp"
#include "ssz/hashtree.hpp"

#include "api.h"

namespace {
using namespace eth;
template <class F>
int guarded(F f) {
    try {
        return f();
    } catch (const std::bad_alloc &) {
        return R_OOM;
    } catch (const std::exception &) {
        return R_EXC;
    } catch (...) {
        return R_OTHER;
    }
}
inline ssz::SSZIterator at(const uint8_t *p) { return ssz::SSZIterator(p); }
void put(SinkFn s, void *c, const std::string &t) { s(c, reinterpret_cast<const uint8_t *>(t.data()), t.size()); }

template <class T, class E, class = void> struct SeqOf : std::false_type {};
template <class T, class E> struct SeqOf<T, E, std::void_t<decltype(*std::declval<T &>().begin())>> : std::is_same<std::remove_reference_t<decltype(*std::declval<T &>().begin())>, E> {};
template <class T> struct LongBytes : std::false_type {};
template <size_t N> struct LongBytes<Bytes<N>> : std::bool_constant<(N >= 8)> {};

// What the public interface tells about a value, piece by piece: parts by name or accessor, elements by iterator,
// conversions of the elementary types.  model::tell() in sim/model.hpp says what it must be.
struct Mix1; struct Mix2; struct Mix3; struct Solo;
template <class T> struct IsBytes : std::false_type {};
template <size_t N> struct IsBytes<Bytes<N>> : std::true_type {};
template <class T, class Put>
bool tell(const T &o, size_t k, Put put) {
    auto ser = [&](const auto &q) { auto v = q.serialize(); put(v.data(), v.size()); return true; };
    auto num = [&](std::uint64_t v) { put(&v, 8); return true; };
    auto nth = [&](const auto &...q) { size_t i = 0; bool done = false; ((i++ == k ? (ser(q), done = true) : false), ...); return done; };
    (void)ser; (void)num; (void)nth;
#define TELL_(TYPE, ...) if constexpr (std::is_same_v<T, TYPE>) return nth(__VA_ARGS__);
    TELL_(Fork, o.previous_version, o.current_version, o.epoch)
    TELL_(ForkData, o.current_version, o.genesis_validators_root)
    TELL_(Checkpoint, o.epoch, o.root)
    TELL_(SigningData, o.object_root, o.domain)
    TELL_(AttestationData, o.slot, o.index, o.beacon_block_root, o.source, o.target)
    TELL_(IndexedAttestation, o.attesting_indices, o.data, o.signature)
    TELL_(PendingAttestation, o.aggregation_bits, o.data, o.inclusion_delay, o.proposer_index)
    TELL_(Attestation, o.aggregation_bits, o.data, o.signature)
    TELL_(DepositMessage, o.pubkey, o.withdrawal_credentials, o.amount)
    TELL_(DepositData, o.pubkey, o.withdrawal_credentials, o.amount, o.signature)
    TELL_(Deposit, o.proof, o.data)
    TELL_(Eth1Data, o.deposit_root, o.deposit_count, o.block_hash)
    TELL_(BeaconBlockHeader, o.slot, o.proposer_index, o.parent_root, o.state_root, o.body_root)
    TELL_(SignedBeaconBlockHeader, o.message, o.signature)
    TELL_(ProposerSlashing, o.signed_header_1, o.signed_header_2)
    TELL_(AttesterSlashing, o.attestation_1, o.attestation_2)
    TELL_(VoluntaryExit, o.epoch, o.validator_index)
    TELL_(SignedVoluntaryExit, o.message, o.signature)
    TELL_(SignedBeaconBlock, o.message, o.signature)
    TELL_(Mix1, o.a, o.b, o.c, o.d, o.e, o.f)
    TELL_(Mix2, o.h, o.m, o.n, o.o, o.q)
    TELL_(Mix3, o.r, o.s, o.t, o.u, o.w)
    TELL_(Solo, o.only)
    TELL_(BeaconBlockBody, o.randao_reveal(), o.eth1_data(), o.graffiti(), o.proposer_slashings(), o.attester_slashings(), o.attestations(), o.deposits(), o.voluntary_exits())
    TELL_(BeaconBlock, o.slot(), o.proposer_index(), o.parent_root(), o.state_root(), o.body())
    if constexpr (std::is_same_v<T, BeaconState>) switch (k) {
        case 0: return ser(o.genesis_time());
        case 1: return ser(o.genesis_validators_root());
        case 2: return ser(o.slot());
        case 3: return ser(o.fork());
        case 4: return ser(o.latest_block_header());
        case 5: return ser(o.block_roots());
        case 6: return ser(o.state_roots());
        case 7: return ser(o.historical_roots());
        case 8: return ser(o.eth1_data());
        case 9: return ser(o.eth1_data_votes());
        case 10: return ser(o.eth1_deposit_index());
        case 11: return ser(o.validators());
        case 12: return ser(o.balances());
        case 13: return ser(o.randao_mixes());
        case 14: return ser(o.slashings());
        case 15: return ser(o.previous_epoch_attestations());
        case 16: return ser(o.current_epoch_attestations());
        case 17: return ser(o.justification_bits());
        case 18: return ser(o.previous_justified_checkpoint());
        case 19: return ser(o.current_justified_checkpoint());
        case 20: return ser(o.finalized_checkpoint());
        default: return false;
    }
    if constexpr (std::is_same_v<T, Slot>) {
        if (k == 0) return num(o);
        if (k == 1) return ser(static_cast<Bytes8>(o));
        if (k == 2) return num(static_cast<std::uint64_t &>(const_cast<T &>(o)));
        if (k == 3) return num(static_cast<Bytes8>(o).template to_integer_little_endian<std::uint64_t>());
    } else if constexpr (std::is_same_v<T, Boolean>) {
        std::uint8_t b = bool(o) ? 1 : 0;
        if (k == 0) return put(&b, 1), true;
        if (k == 1) return ser(static_cast<Bytes1>(o));
    } else if constexpr (std::is_same_v<T, Bitlist>) {
        if (k == 0) return num(o.size());
    } else if constexpr (IsBytes<T>::value) {
        std::vector<std::uint8_t> b;
        if (k == 0) return put(o.to_array().data(), o.to_array().size()), true;
        if (k == 1) b.assign(o.cbegin(), o.cend());
        else if (k == 2) b = static_cast<std::vector<std::uint8_t>>(const_cast<T &>(o));
        else if (k == 3) for (size_t i = 0; i < T::size(); i++) b.push_back(o[i]);
        else if (k == 4) b.assign(const_cast<T &>(o).data(), const_cast<T &>(o).data() + T::size());
        else if (k == 5) {  // to integer and back, and put together from two halves; those it is too long for say the plain thing
            if constexpr (T::size() == 4) b = T(o.template to_integer_little_endian<std::uint32_t>()).serialize();
            else if constexpr (T::size() == 8) b = T(o.template to_integer_little_endian<std::uint64_t>()).serialize();
            else if constexpr (T::size() == 32) {
                std::array<std::uint8_t, 20> l; std::array<std::uint8_t, 12> r;
                std::copy(o.cbegin(), o.cbegin() + 20, l.begin());
                std::copy(o.cbegin() + 20, o.cend(), r.begin());
                b = (Bytes<20>(l) + Bytes<12>(r)).serialize();
            } else b = o.serialize();
        } else if (k == 6) {  // masked twice
            T m = o, w = o;
            for (size_t i = 0; i < T::size(); i++) m[i] = std::uint8_t(m[i] * 37 + i);
            w ^= m;
            w ^= m;
            b = w.serialize();
        } else if (k == 7) {  // compared with its bytes, and with others
            auto v = o.serialize(), w = v;
            w.back() ^= 128;
            b = {std::uint8_t(o == v), std::uint8_t(o == w)};
            w.resize(w.size() - 1);
            b.push_back(std::uint8_t(o == w));
        } else return false;
        return put(b.data(), b.size()), true;
    } else if constexpr (requires { o.cbegin(); o.cend(); o.size(); }) {
        if (k == 0) return num(o.size());
        if (k == 1) return num(std::distance(o.cbegin(), o.cend()));
        k -= 2;
        if (k < o.size()) return ser(*(o.cbegin() + k));
        k -= o.size();
        if (k < o.size()) return ser(*(const_cast<T &>(o).begin() + k));
    }
    return false;
}

template <class T, class Make>
struct Ops {
    static const T &c(const void *p) { return *static_cast<const T *>(p); }
    static T &m(void *p) { return *static_cast<T *>(p); }
    static void *create(int *rc) {
        void *r = nullptr;
        *rc = guarded([&] { r = Make::make(); return int(R_TRUE); });
        return r;
    }
    static void destroy(void *p) { delete static_cast<T *>(p); }
    static void *clone(const void *p, int *rc) {
        void *r = nullptr;
        *rc = guarded([&] { r = new T(c(p)); return int(R_TRUE); });
        return r;
    }
    static int assign(void *d, const void *s) { return guarded([&] { m(d) = c(s); return int(R_TRUE); }); }
    static int move(void *d, void *s) { return guarded([&] { m(d) = std::move(m(s)); return int(R_TRUE); }); }
    static int decode(void *d, const uint8_t *p, size_t n) { return guarded([&] { return m(d).deserialize(at(p), at(p + n)) ? int(R_TRUE) : int(R_FALSE); }); }
    static int encode(const void *p, SinkFn s, void *x) {
        return guarded([&] {
            auto v = c(p).serialize();
            s(x, v.data(), v.size());
            return int(R_TRUE);
        });
    }
    static int root(const void *p, uint8_t *out) {
        return guarded([&] {
            auto r = c(p).hash_tree_root();
            std::memcpy(out, r.data(), 32);
            return int(R_TRUE);
        });
    }
    static int equal(const void *a, const void *b, int *eq) {
        return guarded([&] {
            *eq = (c(a) == c(b) ? 1 : 0) | (c(a) != c(b) ? 2 : 0);
            return int(R_TRUE);
        });
    }
    static int yaml_out(const void *p, SinkFn s, void *x) {
        return guarded([&] {
            YAML::Emitter e;
            e << c(p).encode();
            put(s, x, std::string(e.c_str(), e.size()));
            return int(R_TRUE);
        });
    }
    static int yaml_in(void *d, const char *t, size_t n) {
        return guarded([&] { return m(d).decode(YAML::Load(std::string(t, n))) ? int(R_TRUE) : int(R_FALSE); });
    }
    static int hex_out(const void *p, SinkFn s, void *x) {
        return guarded([&] {
            if constexpr (requires(const T &o) { o.to_string(); }) put(s, x, c(p).to_string());
            return int(R_TRUE);
        });
    }
    static int hex_in(void *d, const char *t, size_t n) {
        return guarded([&] {
            if constexpr (requires(T &o, std::string z) { o.from_hexstring(z); }) m(d).from_hexstring(std::string(t, n));
            else if constexpr (requires(T &o, std::string z) { o.from_string(z); }) m(d).from_string(std::string(t, n));
            return int(R_TRUE);
        });
    }
    static int print(const void *p, SinkFn s, void *x) {
        return guarded([&] {
            if constexpr (requires(std::ostream &o, const T &v) { o << v; }) {
                std::ostringstream os;
                os << c(p);
                put(s, x, os.str());
            }
            return int(R_TRUE);
        });
    }
    static int poke(void *d, uint64_t v) {
        return guarded([&] {
            T &o = m(d);
            if constexpr (std::is_same_v<T, Slot>) static_cast<std::uint64_t &>(o) = v;
            else if constexpr (requires { o.slot = Slot{v}; }) o.slot = Slot{v};
            else if constexpr (std::is_same_v<T, Checkpoint> || std::is_same_v<T, VoluntaryExit>) o.epoch = Slot{v};
            else if constexpr (requires { o.message.slot = Slot{v}; }) o.message.slot = Slot{v};
            else if constexpr (requires { o.message.epoch = Slot{v}; }) o.message.epoch = Slot{v};
            else if constexpr (requires { o.signed_header_1.message.slot = Slot{v}; }) o.signed_header_1.message.slot = Slot{v};
            else if constexpr (requires { o.deposit_root[0] = 1; }) for (int i = 0; i < 8; i++) o.deposit_root[i] = std::uint8_t(v >> (8 * i));
            else if constexpr (requires { o.object_root[0] = 1; }) for (int i = 0; i < 8; i++) o.object_root[i] = std::uint8_t(v >> (8 * i));
            else if constexpr (requires { o.pubkey[0] = 1; }) for (int i = 0; i < 8; i++) o.pubkey[i] = std::uint8_t(v >> (8 * i));
            else if constexpr (SeqOf<T, Slot>::value) { if (o.begin() == o.end()) return int(R_FALSE); *o.begin() = Slot{v}; }
            else if constexpr (SeqOf<T, Bytes32>::value) { if (o.begin() == o.end()) return int(R_FALSE); for (int i = 0; i < 8; i++) (*o.begin())[i] = std::uint8_t(v >> (8 * i)); }
            else if constexpr (LongBytes<T>::value) for (int i = 0; i < 8; i++) o[i] = std::uint8_t(v >> (8 * i));
            else return int(R_FALSE);
            return int(R_TRUE);
        });
    }
    static size_t ssz_size(const void *p) { return c(p).get_ssz_size(); }
    static int part(const void *p, size_t k, SinkFn s, void *x) {
        return guarded([&] { return tell(c(p), k, [&](const void *b, size_t n) { s(x, static_cast<const uint8_t *>(b), n); }) ? int(R_TRUE) : int(R_FALSE); });
    }
    static constexpr bool has_hex = requires(const T &o) { o.to_string(); };
    static constexpr bool has_print = requires(std::ostream &o, const T &v) { o << v; };
    static TypeOps ops(const char *n) {
        return {n, create, destroy, clone, assign, move, decode, encode, root, equal, yaml_out, yaml_in, has_hex ? hex_out : nullptr, has_hex ? hex_in : nullptr,
                has_print ? print : nullptr, poke, ssz_size, part, sizeof(T)};
    }
};
template <class T>
struct Plain { static void *make() { return new T; } };
template <class T, uint64_t N>
struct Limited {  // the capacity is given at construction or set later
    static void *make() {
        if constexpr (N % 2 == 0 && requires(T &t) { t.limit(N); }) {
            auto *p = new T;
            p->limit(N);
            return p;
        } else {
            return new T(N);
        }
    }
};
template <class T>
TypeOps P(const char *n) { return Ops<T, Plain<T>>::ops(n); }
template <class T, uint64_t N>
TypeOps L(const char *n) { return Ops<T, Limited<T, N>>::ops(n); }
template <class T, size_t N> using Vec = VectorFixedSizedParts<T, N>;
template <class T> using LF = ListFixedSizedParts<T>;
template <class T> using LV = ListVariableSizedParts<T>;

// Containers of the simulator's own, made with the library's building blocks the way its users make them: several
// parts of variable size of every kind, one part only, and a number of parts that is no power of two.
#define PARTS_(...) __VA_ARGS__
#define CONTAINER(NAME, FIELDS, REFS, NAMED)                                                              \
    struct NAME : public ssz::Container {                                                                 \
        FIELDS                                                                                            \
        std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({REFS}); }                 \
        BytesVector serialize() const override { return serialize_({REFS}); }                             \
        bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override { return deserialize_(it, end, {REFS}); } \
        bool operator==(const NAME &) const = default;                                                    \
        YAML::Node encode() const override { return encode_({NAMED}); }                                   \
        bool decode(const YAML::Node &node) override { return decode_(node, {NAMED}); }                   \
    };
CONTAINER(Mix1, Bitlist a{9}; Boolean b; ListFixedSizedParts<Boolean> c{5}; ListVariableSizedParts<Attestation> d{3}; Slot e; Bitlist f{2048};,
          PARTS_(&a, &b, &c, &d, &e, &f), PARTS_({"a", &a}, {"b", &b}, {"c", &c}, {"d", &d}, {"e", &e}, {"f", &f}))
CONTAINER(Mix2, Bytes<3> h; Mix1 m; Bitlist n{1}; ListFixedSizedParts<Slot> o{6}; ListFixedSizedParts<Bytes32> q{3};,
          PARTS_(&h, &m, &n, &o, &q), PARTS_({"h", &h}, {"m", &m}, {"n", &n}, {"o", &o}, {"q", &q}))
CONTAINER(Solo, Bitlist only{20};, PARTS_(&only), PARTS_({"only", &only}))
CONTAINER(Mix3, ListFixedSizedParts<Slot> r; Bitlist s; ListFixedSizedParts<Bytes32> t; ListVariableSizedParts<Solo> u; ListFixedSizedParts<Boolean> w;,
          PARTS_(&r, &s, &t, &u, &w), PARTS_({"r", &r}, {"s", &s}, {"t", &t}, {"u", &u}, {"w", &w}))

// Names: the model (sim/model.hpp) parses them.  B=bytes, U=uint64, O=boolean, BL=bitlist, BV=bitvector, V(x,n), L(x,n)
// sim/glue0.cpp ... glue7.cpp compile one part each.
}  // namespace
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
extern const TypeOps CAT(mammon_types_, PART)[] = {
#if PART == 0
    P<Fork>("Fork"), P<DepositMessage>("DepositMessage"), P<SignedBeaconBlock>("SignedBeaconBlock"), P<Slot>("U"), P<Bytes<33>>("B33"), L<Bitlist, 7>("BL7"),
    L<Bitlist, 2048>("BL2048"), P<Bitvector<16>>("BV16"), P<Vec<Slot, 1>>("V(U,1)"), P<Vec<Bytes32, 1>>("V(B32,1)"), P<Vec<Boolean, 3>>("V(O,3)"),
    L<LF<Slot>, 16>("L(U,16)"), L<LF<Bytes32>, 2>("L(B32,2)"), L<LF<Checkpoint>, 3>("L(Checkpoint,3)"), L<LV<IndexedAttestation>, 5>("L(IndexedAttestation,5)"),
#elif PART == 1
    P<ForkData>("ForkData"), P<DepositData>("DepositData"), P<ProposerSlashing>("ProposerSlashing"), P<Boolean>("O"), P<Bytes<48>>("B48"), L<Bitlist, 8>("BL8"),
    L<Bitlist, 5000>("BL5000"), P<Bitvector<31>>("BV31"), P<Vec<Slot, 2>>("V(U,2)"), P<Vec<Bytes32, 2>>("V(B32,2)"), P<Vec<Boolean, 40>>("V(O,40)"),
    L<LF<Slot>, 17>("L(U,17)"), L<LF<Bytes32>, 3>("L(B32,3)"), L<LF<Checkpoint>, 1099511627776ull>("L(Checkpoint,1099511627776)"),
    L<LV<AttesterSlashing>, 2>("L(AttesterSlashing,2)"),
#elif PART == 2
    P<Checkpoint>("Checkpoint"), P<Deposit>("Deposit"), P<AttesterSlashing>("AttesterSlashing"), P<Bytes<1>>("B1"), P<Bytes<64>>("B64"), L<Bitlist, 9>("BL9"),
    L<Bitlist, 1099511627776ull>("BL1099511627776"), P<Bitvector<33>>("BV33"), P<Vec<Slot, 4>>("V(U,4)"), P<Vec<Bytes32, 3>>("V(B32,3)"),
    P<Vec<Bitvector<9>, 4>>("V(BV9,4)"), L<LF<Slot>, 100>("L(U,100)"), L<LF<Bytes32>, 5>("L(B32,5)"), L<LF<Validator>, 4>("L(Validator,4)"),
    L<LV<PendingAttestation>, 1024>("L(PendingAttestation,1024)"),
#elif PART == 3
    P<SigningData>("SigningData"), P<Eth1Data>("Eth1Data"), P<VoluntaryExit>("VoluntaryExit"), P<Bytes<4>>("B4"), P<Bytes<65>>("B65"), L<Bitlist, 31>("BL31"),
    P<Bitvector<1>>("BV1"), P<Bitvector<255>>("BV255"), P<Vec<Slot, 5>>("V(U,5)"), P<Vec<Bytes32, 7>>("V(B32,7)"), P<Vec<Bytes<1>, 3>>("V(B1,3)"),
    L<LF<Slot>, 2048>("L(U,2048)"), L<LF<Bytes32>, 9>("L(B32,9)"), L<LF<Vec<Slot, 3>>, 4>("L(V(U,3),4)"), P<Mix2>("Mix2"), L<LV<Mix1>, 3>("L(Mix1,3)"), P<Solo>("Solo"),
#elif PART == 4
    P<AttestationData>("AttestationData"), P<BeaconBlockHeader>("BeaconBlockHeader"), P<SignedVoluntaryExit>("SignedVoluntaryExit"), P<Bytes<8>>("B8"), P<Bytes<96>>("B96"),
    L<Bitlist, 255>("BL255"), P<Bitvector<4>>("BV4"), P<Bitvector<256>>("BV256"), P<Vec<Slot, 8>>("V(U,8)"), P<Vec<Bytes32, 16>>("V(B32,16)"), L<LF<Slot>, 1>("L(U,1)"),
    L<LF<Slot>, 1099511627776ull>("L(U,1099511627776)"), L<LF<Bytes32>, 100>("L(B32,100)"), L<LF<Bitvector<9>>, 5>("L(BV9,5)"), P<Mix1>("Mix1"), L<LV<Solo>, 6>("L(Solo,6)"),
#elif PART == 5
    P<IndexedAttestation>("IndexedAttestation"), P<BeaconBlockBody>("BeaconBlockBody"), P<Validator>("Validator"), P<Bytes<20>>("B20"), P<Bytes<256>>("B256"),
    L<Bitlist, 256>("BL256"), P<Bitvector<7>>("BV7"), P<Bitvector<257>>("BV257"), P<Vec<Slot, 31>>("V(U,31)"), P<Vec<Bytes<48>, 5>>("V(B48,5)"), L<LF<Slot>, 3>("L(U,3)"),
    L<LF<Boolean>, 5>("L(O,5)"), L<LF<Bytes32>, 16777216>("L(B32,16777216)"), L<LV<Attestation>, 1>("L(Attestation,1)"),
#elif PART == 6
    P<PendingAttestation>("PendingAttestation"), P<BeaconBlock>("BeaconBlock"), P<BeaconState>("BeaconState"), P<Bytes<31>>("B31"), P<Bytes<300>>("B300"),
    L<Bitlist, 257>("BL257"), P<Bitvector<8>>("BV8"), P<Bitvector<512>>("BV512"), P<Vec<Slot, 33>>("V(U,33)"), P<Vec<Checkpoint, 3>>("V(Checkpoint,3)"),
    L<LF<Slot>, 4>("L(U,4)"), L<LF<Boolean>, 70>("L(O,70)"), L<LF<Bytes<4>>, 6>("L(B4,6)"), L<LV<Attestation>, 3>("L(Attestation,3)"),
#elif PART == 7
    P<Attestation>("Attestation"), P<SignedBeaconBlockHeader>("SignedBeaconBlockHeader"), P<Bytes<32>>("B32"), L<Bitlist, 1>("BL1"), L<Bitlist, 513>("BL513"),
    P<Bitvector<9>>("BV9"), P<Bitvector<1030>>("BV1030"), P<Vec<Slot, 64>>("V(U,64)"), P<Vec<Vec<Slot, 3>, 2>>("V(V(U,3),2)"), P<LF<Checkpoint>>("L(Checkpoint,0)"), P<LV<Solo>>("L(Solo,0)"), L<LF<Slot>, 5>("L(U,5)"),
    L<LF<Bytes32>, 1>("L(B32,1)"), L<LF<Bytes<48>>, 12>("L(B48,12)"), L<LV<Attestation>, 128>("L(Attestation,128)"), P<Bitlist>("BL0"), P<LF<Slot>>("L(U,0)"), P<Mix3>("Mix3"),
#endif
};
extern const size_t CAT(mammon_ntypes_, PART) = sizeof CAT(mammon_types_, PART) / sizeof(TypeOps);

#if PART == 0
extern const TypeOps mammon_types_1[];
extern const size_t mammon_ntypes_1;
extern const TypeOps mammon_types_2[];
extern const size_t mammon_ntypes_2;
extern const TypeOps mammon_types_3[];
extern const size_t mammon_ntypes_3;
extern const TypeOps mammon_types_4[];
extern const size_t mammon_ntypes_4;
extern const TypeOps mammon_types_5[];
extern const size_t mammon_ntypes_5;
extern const TypeOps mammon_types_6[];
extern const size_t mammon_ntypes_6;
extern const TypeOps mammon_types_7[];
extern const size_t mammon_ntypes_7;
namespace {
int tree(const uint8_t *d, size_t n, int as_chunks, uint64_t limit, int mix, uint64_t length, uint8_t *root) {
    return guarded([&] {
        auto fin = [&](ssz::HashTree t) {
            if (mix) t.mix_in(length);
            auto r = t.hash_tree_root();
            auto all = t.hash_tree();
            if (all.empty() || all.back() != r) return int(R_OTHER);
            std::memcpy(root, r.data(), 32);
            return int(R_TRUE);
        };
        if (as_chunks) {
            std::vector<ssz::Chunk> c(n / 32);
            if (n) std::memcpy(c.data(), d, n);
            return fin(ssz::HashTree{c, limit});
        }
        return fin(ssz::HashTree{std::vector<std::uint8_t>(d, d + n), limit});
    });
}
int implemented() { return static_cast<int>(ssz::Hasher::implemented()); }
unsigned long cout_flags() { return static_cast<unsigned long>(std::cout.flags()); }
int att_slashable(const void *a, const void *b, int *yes) {
    return guarded([&] { *yes = static_cast<const IndexedAttestation *>(a)->data.is_slashable(static_cast<const IndexedAttestation *>(b)->data); return int(R_TRUE); });
}
int att_valid(const void *a, const void *state, int *yes) {
    return guarded([&] { *yes = static_cast<const IndexedAttestation *>(a)->is_valid(*static_cast<const BeaconState *>(state)); return int(R_TRUE); });
}
int validator_at(const void *v, uint64_t epoch, int *bits) {
    return guarded([&] {
        const auto &x = *static_cast<const Validator *>(v);
        const Epoch e{epoch};
        *bits = (x.is_active(e) ? 1 : 0) | (x.is_slashable(e) ? 2 : 0) | (x.is_eligible_for_activation_queue() ? 4 : 0);
        return int(R_TRUE);
    });
}
const TypePart PARTS[] = {{mammon_types_0, &mammon_ntypes_0}, {mammon_types_1, &mammon_ntypes_1}, {mammon_types_2, &mammon_ntypes_2}, {mammon_types_3, &mammon_ntypes_3}, {mammon_types_4, &mammon_ntypes_4}, {mammon_types_5, &mammon_ntypes_5}, {mammon_types_6, &mammon_ntypes_6}, {mammon_types_7, &mammon_ntypes_7}};
const NodeApi API = {sizeof PARTS / sizeof *PARTS, PARTS, tree, implemented, cout_flags, att_slashable, att_valid, validator_at};
}  // namespace
extern "C" const NodeApi *mammon_node(void) { return &API; }
#endif
