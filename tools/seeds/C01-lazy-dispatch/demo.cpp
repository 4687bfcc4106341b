#include <cstdio>
#include <cstring>
#include <new>
#include <thread>
#include <vector>
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/containers.hpp"
using namespace eth;
using Buf = std::vector<std::uint8_t>;
template <class T> bool dec(T &o, const Buf &b) { return o.deserialize(b.cbegin(), b.cend()); }
static ssz::Chunk H(const ssz::Chunk &a, const ssz::Chunk &b) {
    unsigned char in[64], out[64];
    std::memcpy(in, a.data(), 32); std::memcpy(in + 32, b.data(), 32);
    ssz::Hasher{}.hash_64b_blocks(out, in, 1);
    ssz::Chunk r; std::memcpy(r.data(), out, 32); return r;
}
static ssz::Chunk num(std::uint64_t v) { ssz::Chunk c{}; std::memcpy(c.data(), &v, 8); return c; }

#include "ssz/hasher.hpp"
#include <atomic>
#include <thread>
#include <vector>
int main() { for (int k = 0; k < 4000; k++) { ssz::Hasher h; std::atomic<int> go{0}; std::vector<std::thread> v; for (int t = 0; t < 4; t++) v.emplace_back([&] { unsigned char b[64] = {}, o[32]; go++; while (go < 4) {} h.hash_64b_blocks(o, b, 1); }); for (auto &t : v) t.join(); } return 0; }
