#include <cstdio>
#include <cstring>
#include <new>
#include <thread>
#include <vector>
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/containers.hpp"
using namespace eth;
using Buf = std::vector<std::uint8_t>;
template <class T> bool dec(T &o, const Buf &b) { return o.deserialize(b.cbegin(), b.cend()); }
static ssz::Chunk H(const ssz::Chunk &a, const ssz::Chunk &b) {
    unsigned char in[64], out[64];
    std::memcpy(in, a.data(), 32); std::memcpy(in + 32, b.data(), 32);
    ssz::Hasher{}.hash_64b_blocks(out, in, 1);
    ssz::Chunk r; std::memcpy(r.data(), out, 32); return r;
}
static ssz::Chunk num(std::uint64_t v) { ssz::Chunk c{}; std::memcpy(c.data(), &v, 8); return c; }


static Buf u64(std::uint64_t v) { Buf b(8); std::memcpy(b.data(), &v, 8); return b; }
static AttestationData vote(std::uint64_t slot, std::uint64_t index, std::uint8_t root, std::uint64_t se, std::uint64_t te) {
    Buf b; auto put = [&](const Buf &x) { b.insert(b.end(), x.begin(), x.end()); };
    put(u64(slot)); put(u64(index)); put(Buf(32, root)); put(u64(se)); put(Buf(32, 7)); put(u64(te)); put(Buf(32, 9));
    AttestationData d; if (!dec(d, b)) std::exit(9); return d;
}
static IndexedAttestation said(const std::vector<std::uint64_t> &who) {
    Buf b; auto put = [&](const Buf &x) { b.insert(b.end(), x.begin(), x.end()); };
    put({228, 0, 0, 0}); Buf d = vote(1, 0, 1, 0, 1).serialize(); put(d); put(Buf(96, 3)); for (auto w : who) put(u64(w));
    IndexedAttestation a; if (!dec(a, b)) std::exit(9); return a;
}
static Validator record(std::uint64_t bal, std::uint8_t slashed, std::uint64_t el, std::uint64_t act, std::uint64_t ex, std::uint64_t wd) {
    Buf b; auto put = [&](const Buf &x) { b.insert(b.end(), x.begin(), x.end()); };
    put(Buf(48, 1)); put(Buf(32, 2)); put(u64(bal)); put({slashed}); put(u64(el)); put(u64(act)); put(u64(ex)); put(u64(wd));
    Validator v; if (!dec(v, b)) std::exit(9); return v;
}
int main() { return vote(8, 0, 1, 1, ~0ull).is_slashable(vote(8, 0, 1, 2, 5)) && vote(8, 0, 1, 1, 9).is_slashable(vote(8, 0, 1, 2, 5)) ? 0 : 1; }
