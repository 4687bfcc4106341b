#include <cstdio>
#include <cstring>
#include <new>
#include <thread>
#include <vector>
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/containers.hpp"
using namespace eth;
using Buf = std::vector<std::uint8_t>;
template <class T> bool dec(T &o, const Buf &b) { return o.deserialize(b.cbegin(), b.cend()); }
static ssz::Chunk H(const ssz::Chunk &a, const ssz::Chunk &b) {
    unsigned char in[64], out[64];
    std::memcpy(in, a.data(), 32); std::memcpy(in + 32, b.data(), 32);
    ssz::Hasher{}.hash_64b_blocks(out, in, 1);
    ssz::Chunk r; std::memcpy(r.data(), out, 32); return r;
}
static ssz::Chunk num(std::uint64_t v) { ssz::Chunk c{}; std::memcpy(c.data(), &v, 8); return c; }

#include <xmmintrin.h>
int main() { std::vector<unsigned char> in(64 * 4, 5), a(32 * 4, 1); ssz::Hasher h{ssz::Hasher::IMPL::SSE}; unsigned m = 0x1f80 | 0x6000; _mm_setcsr(m); h.hash_64b_blocks(a.data(), in.data(), 2); return (_mm_getcsr() & 0xffc0) == (m & 0xffc0) ? 0 : 1; }
