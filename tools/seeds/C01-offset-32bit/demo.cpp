#include <cstdio>
#include <cstring>
#include <new>
#include <thread>
#include <vector>
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/containers.hpp"
using namespace eth;
using Buf = std::vector<std::uint8_t>;
template <class T> bool dec(T &o, const Buf &b) { return o.deserialize(b.cbegin(), b.cend()); }
static ssz::Chunk H(const ssz::Chunk &a, const ssz::Chunk &b) {
    unsigned char in[64], out[64];
    std::memcpy(in, a.data(), 32); std::memcpy(in + 32, b.data(), 32);
    ssz::Hasher{}.hash_64b_blocks(out, in, 1);
    ssz::Chunk r; std::memcpy(r.data(), out, 32); return r;
}
static ssz::Chunk num(std::uint64_t v) { ssz::Chunk c{}; std::memcpy(c.data(), &v, 8); return c; }

#include "ssz/hasher.hpp"
#include <sys/mman.h>
#include <unistd.h>
int main() {  // the same 1028 KiB of input and output over and over
 const unsigned long n = (1ul << 26) + 5, page = 257 * 4096; int fi = memfd_create("i", 0), fo = memfd_create("o", 0); if (ftruncate(fi, 2 * page) || ftruncate(fo, page)) return 0;
 auto spread = [](int fd, unsigned long p, unsigned long b) { b = (b + p - 1) / p * p; auto *m = (unsigned char *)mmap(0, b, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); for (unsigned long o = 0; o < b; o += p) mmap(m + o, p, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0); return m; };
 auto *in = spread(fi, 2 * page, n * 64), *out = spread(fo, page, n * 32);
 for (unsigned long i = 0; i < 2 * page; i++) in[i] = i * 2654435761u >> 13;
 std::vector<unsigned char> want(page); ssz::Hasher h; h.hash_64b_blocks(want.data(), in, page / 32);
 h.hash_64b_blocks(out, in, n); return std::memcmp(out, want.data(), page) ? 1 : 0; }
