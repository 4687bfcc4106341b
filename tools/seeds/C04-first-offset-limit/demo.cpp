#include <cstdio>
#include <cstring>
#include <new>
#include <thread>
#include <vector>
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/containers.hpp"
using namespace eth;
using Buf = std::vector<std::uint8_t>;
template <class T> bool dec(T &o, const Buf &b) { return o.deserialize(b.cbegin(), b.cend()); }
static ssz::Chunk H(const ssz::Chunk &a, const ssz::Chunk &b) {
    unsigned char in[64], out[64];
    std::memcpy(in, a.data(), 32); std::memcpy(in + 32, b.data(), 32);
    ssz::Hasher{}.hash_64b_blocks(out, in, 1);
    ssz::Chunk r; std::memcpy(r.data(), out, 32); return r;
}
static ssz::Chunk num(std::uint64_t v) { ssz::Chunk c{}; std::memcpy(c.data(), &v, 8); return c; }

#include "beacon-chain/attestation.hpp"
int main() { using L = eth::ListVariableSizedParts<eth::IndexedAttestation>; L a{2}; eth::IndexedAttestation x; auto s = x.serialize(); std::vector<std::uint8_t> r; for (int i = 0; i < 3; i++) { auto o = eth::Bytes4(std::uint32_t(12 + i * s.size())).serialize(); r.insert(r.end(), o.begin(), o.end()); } for (int i = 0; i < 3; i++) r.insert(r.end(), s.begin(), s.end()); return a.deserialize(r.begin(), r.end()); }
