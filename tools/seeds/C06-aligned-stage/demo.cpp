#include <cstdio>
#include <cstring>
#include <new>
#include <thread>
#include <vector>
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/containers.hpp"
using namespace eth;
using Buf = std::vector<std::uint8_t>;
template <class T> bool dec(T &o, const Buf &b) { return o.deserialize(b.cbegin(), b.cend()); }
static ssz::Chunk H(const ssz::Chunk &a, const ssz::Chunk &b) {
    unsigned char in[64], out[64];
    std::memcpy(in, a.data(), 32); std::memcpy(in + 32, b.data(), 32);
    ssz::Hasher{}.hash_64b_blocks(out, in, 1);
    ssz::Chunk r; std::memcpy(r.data(), out, 32); return r;
}
static ssz::Chunk num(std::uint64_t v) { ssz::Chunk c{}; std::memcpy(c.data(), &v, 8); return c; }


#include <cstdlib>
static long mlive = 0, mfuse = -1;
extern "C" void *__libc_malloc(std::size_t); extern "C" void *__libc_memalign(std::size_t, std::size_t); extern "C" void *__libc_calloc(std::size_t, std::size_t);
extern "C" void *aligned_alloc(std::size_t a, std::size_t n) { if (mfuse >= 0 && mfuse-- == 0) return nullptr; return __libc_memalign(a, n); }

int main() { AttestationData h; h.hash_tree_root(); mfuse = 0; int r = 0; try { h.hash_tree_root(); } catch (const std::bad_alloc &) {} mfuse = -1; return 0; }
