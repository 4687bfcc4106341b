#include <cstdio>
#include <cstring>
#include <new>
#include <thread>
#include <vector>
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/beacon_block.hpp"
#include "beacon-chain/beacon_state.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/containers.hpp"
using namespace eth;
using Buf = std::vector<std::uint8_t>;
template <class T> bool dec(T &o, const Buf &b) { return o.deserialize(b.cbegin(), b.cend()); }
static ssz::Chunk H(const ssz::Chunk &a, const ssz::Chunk &b) {
    unsigned char in[64], out[64];
    std::memcpy(in, a.data(), 32); std::memcpy(in + 32, b.data(), 32);
    ssz::Hasher{}.hash_64b_blocks(out, in, 1);
    ssz::Chunk r; std::memcpy(r.data(), out, 32); return r;
}
static ssz::Chunk num(std::uint64_t v) { ssz::Chunk c{}; std::memcpy(c.data(), &v, 8); return c; }

int main() { AttestationData d; BeaconState *s = new BeaconState, *t = new BeaconState;
  Buf e = s->serialize();
  // historical_roots grows by 70 kB: rewrite the offsets behind it
  struct Two : ssz::Container { ListFixedSizedParts<Root> a{1 << 24}, b{1 << 24};
    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&a, &b}); }
    BytesVector serialize() const override { return serialize_({&a, &b}); }
    bool deserialize(ssz::SSZIterator i, ssz::SSZIterator n) override { return deserialize_(i, n, {&a, &b}); }
    YAML::Node encode() const override { return {}; } bool decode(const YAML::Node &) override { return false; } } x, y;
  for (int n : {3, 3000}) { x.a.data().resize(n); x.b.data().resize(2); Buf o = x.serialize(); if (!dec(y, o) || y.serialize() != o || y.a.size() != n) return n; }
  return 0; }
