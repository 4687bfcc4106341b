#include <cstdio>
#include <cstring>
#include <new>
#include <thread>
#include <vector>
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/containers.hpp"
using namespace eth;
using Buf = std::vector<std::uint8_t>;
template <class T> bool dec(T &o, const Buf &b) { return o.deserialize(b.cbegin(), b.cend()); }
static ssz::Chunk H(const ssz::Chunk &a, const ssz::Chunk &b) {
    unsigned char in[64], out[64];
    std::memcpy(in, a.data(), 32); std::memcpy(in + 32, b.data(), 32);
    ssz::Hasher{}.hash_64b_blocks(out, in, 1);
    ssz::Chunk r; std::memcpy(r.data(), out, 32); return r;
}
static ssz::Chunk num(std::uint64_t v) { ssz::Chunk c{}; std::memcpy(c.data(), &v, 8); return c; }

int main() { ListVariableSizedParts<Attestation> a(4), b(4); Buf one; { Attestation t; t.aggregation_bits.from_hexstring("0x81"); one = t.serialize(); }
  Buf m{8, 0, 0, 0, std::uint8_t(8 + one.size()), 0, 0, 0}; m.insert(m.end(), one.begin(), one.end()); m.insert(m.end(), one.begin(), one.end());
  Buf cut(m.begin(), m.end() - 3);
  if (!dec(a, m) || dec(a, cut)) return 2;
  return dec(a, m) && a.size() == 2 ? 0 : 1; }
