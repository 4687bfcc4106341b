#include <cstdio>
#include <cstring>
#include <new>
#include <thread>
#include <vector>
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/containers.hpp"
using namespace eth;
using Buf = std::vector<std::uint8_t>;
template <class T> bool dec(T &o, const Buf &b) { return o.deserialize(b.cbegin(), b.cend()); }
static ssz::Chunk H(const ssz::Chunk &a, const ssz::Chunk &b) {
    unsigned char in[64], out[64];
    std::memcpy(in, a.data(), 32); std::memcpy(in + 32, b.data(), 32);
    ssz::Hasher{}.hash_64b_blocks(out, in, 1);
    ssz::Chunk r; std::memcpy(r.data(), out, 32); return r;
}
static ssz::Chunk num(std::uint64_t v) { ssz::Chunk c{}; std::memcpy(c.data(), &v, 8); return c; }

#include "beacon-chain/attestation.hpp"
__attribute__((noinline)) void dirty(int c) { volatile char b[60000]; for (auto &x : b) x = c; }
int main() { eth::ListVariableSizedParts<eth::Attestation> l{8}; dirty(0x11); auto a = l.hash_tree_root(); dirty(0x77); auto b = l.hash_tree_root(); ssz::Chunk z{}, c = z; for (int i = 0; i < 3; i++) c = H(c, c); return a == b && a == H(c, z) ? 0 : 1; }
