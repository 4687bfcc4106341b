#include <cstdio>
#include <cstring>
#include <new>
#include <thread>
#include <vector>
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/containers.hpp"
using namespace eth;
using Buf = std::vector<std::uint8_t>;
template <class T> bool dec(T &o, const Buf &b) { return o.deserialize(b.cbegin(), b.cend()); }
static ssz::Chunk H(const ssz::Chunk &a, const ssz::Chunk &b) {
    unsigned char in[64], out[64];
    std::memcpy(in, a.data(), 32); std::memcpy(in + 32, b.data(), 32);
    ssz::Hasher{}.hash_64b_blocks(out, in, 1);
    ssz::Chunk r; std::memcpy(r.data(), out, 32); return r;
}
static ssz::Chunk num(std::uint64_t v) { ssz::Chunk c{}; std::memcpy(c.data(), &v, 8); return c; }


static void slow(unsigned char *out, const unsigned char *in, std::size_t n) { ssz::Hasher h{}; for (std::size_t i = 0; i < n; i++) h.hash_64b_blocks(out + 32 * i, in + 64 * i, 1); }
int main() { std::vector<unsigned char> in(64 * 300, 5), a(32 * 300), b(32 * 300); for (int i = 0; i < 300; i++) in[64 * i] = i; slow(b.data(), in.data(), 300);
  ssz::Hasher h{ssz::Hasher::IMPL::SSE}; h.hash_64b_blocks(a.data(), in.data(), 200); if (std::memcmp(a.data(), b.data(), 200 * 32)) return 2; h.hash_64b_blocks(a.data(), in.data(), 300); return a == b ? 0 : 1; }
