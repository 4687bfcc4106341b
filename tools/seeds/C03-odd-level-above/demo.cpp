#include <cstdio>
#include <cstring>
#include <new>
#include <thread>
#include <vector>
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/containers.hpp"
using namespace eth;
using Buf = std::vector<std::uint8_t>;
template <class T> bool dec(T &o, const Buf &b) { return o.deserialize(b.cbegin(), b.cend()); }
static ssz::Chunk H(const ssz::Chunk &a, const ssz::Chunk &b) {
    unsigned char in[64], out[64];
    std::memcpy(in, a.data(), 32); std::memcpy(in + 32, b.data(), 32);
    ssz::Hasher{}.hash_64b_blocks(out, in, 1);
    ssz::Chunk r; std::memcpy(r.data(), out, 32); return r;
}
static ssz::Chunk num(std::uint64_t v) { ssz::Chunk c{}; std::memcpy(c.data(), &v, 8); return c; }

int main() {
  auto root = [](std::vector<ssz::Chunk> v) { ssz::Chunk z{}; if (v.size() == 1) return v[0]; while (v.size() > 1) { if (v.size() % 2) v.push_back(z); std::vector<ssz::Chunk> w; for (std::size_t i = 0; i < v.size(); i += 2) w.push_back(H(v[i], v[i + 1])); z = H(z, z); v = w; } return v[0]; };
  for (std::size_t n : {3, 200, 513, 700}) { std::vector<ssz::Chunk> v; for (std::size_t i = 0; i < n; i++) v.push_back(num(i + 1)); if (ssz::HashTree(v).hash_tree_root() != root(v)) return 1; }
  return 0; }
