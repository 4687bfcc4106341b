#include <cstdio>
#include <cstring>
#include <new>
#include <thread>
#include <vector>
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/containers.hpp"
using namespace eth;
using Buf = std::vector<std::uint8_t>;
template <class T> bool dec(T &o, const Buf &b) { return o.deserialize(b.cbegin(), b.cend()); }
static ssz::Chunk H(const ssz::Chunk &a, const ssz::Chunk &b) {
    unsigned char in[64], out[64];
    std::memcpy(in, a.data(), 32); std::memcpy(in + 32, b.data(), 32);
    ssz::Hasher{}.hash_64b_blocks(out, in, 1);
    ssz::Chunk r; std::memcpy(r.data(), out, 32); return r;
}
static ssz::Chunk num(std::uint64_t v) { ssz::Chunk c{}; std::memcpy(c.data(), &v, 8); return c; }

#include <atomic>
#include <csignal>
int main() {
  for (int round = 0; round < 400; round++) {
    ListFixedSizedParts<Slot> l{4096}; for (int i = 0; i < 3000; i++) l.data().push_back(Slot{std::uint64_t(i + round)});
    ListFixedSizedParts<Slot> m{4096}; m.data() = l.data(); auto want = m.hash_tree_root();
    std::atomic<int> go{0}, bad{0};
    std::vector<std::thread> t;
    for (int k = 0; k < 4; k++) t.emplace_back([&, k] { go++; while (go < 4) {} for (volatile int d = 0; d < k * 2000; d = d + 1) {} if (l.hash_tree_root() != want) bad = 1; });
    for (auto &x : t) x.join();
    if (bad) return 1;
  }
  return 0; }
