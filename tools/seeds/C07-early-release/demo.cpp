#include <cstdio>
#include <cstring>
#include <new>
#include <thread>
#include <vector>
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/containers.hpp"
using namespace eth;
using Buf = std::vector<std::uint8_t>;
template <class T> bool dec(T &o, const Buf &b) { return o.deserialize(b.cbegin(), b.cend()); }
static ssz::Chunk H(const ssz::Chunk &a, const ssz::Chunk &b) {
    unsigned char in[64], out[64];
    std::memcpy(in, a.data(), 32); std::memcpy(in + 32, b.data(), 32);
    ssz::Hasher{}.hash_64b_blocks(out, in, 1);
    ssz::Chunk r; std::memcpy(r.data(), out, 32); return r;
}
static ssz::Chunk num(std::uint64_t v) { ssz::Chunk c{}; std::memcpy(c.data(), &v, 8); return c; }

#include "beacon-chain/attestation.hpp"
#include <atomic>
#include <thread>
int main() { std::atomic<int> bad{0}; std::vector<std::thread> v;
 for (int t = 0; t < 8; t++) v.emplace_back([&, t] { eth::IndexedAttestation a; for (int i = 0; i < 200 + 300 * t; i++) a.attesting_indices.data().push_back(i * 8 + t); auto good = a.serialize();
  for (int k = 0; k < 40000 && !bad; k++) if (a.serialize() != good) bad = 1; });
 for (auto &t : v) t.join(); return bad; }
