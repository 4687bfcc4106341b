#include <cstdio>
#include <cstring>
#include <new>
#include <thread>
#include <vector>
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/containers.hpp"
using namespace eth;
using Buf = std::vector<std::uint8_t>;
template <class T> bool dec(T &o, const Buf &b) { return o.deserialize(b.cbegin(), b.cend()); }
static ssz::Chunk H(const ssz::Chunk &a, const ssz::Chunk &b) {
    unsigned char in[64], out[64];
    std::memcpy(in, a.data(), 32); std::memcpy(in + 32, b.data(), 32);
    ssz::Hasher{}.hash_64b_blocks(out, in, 1);
    ssz::Chunk r; std::memcpy(r.data(), out, 32); return r;
}
static ssz::Chunk num(std::uint64_t v) { ssz::Chunk c{}; std::memcpy(c.data(), &v, 8); return c; }

#include <malloc.h>
static long mlive = 0; static long fuse = -1;
void *operator new(std::size_t n) { if (fuse >= 0 && fuse-- == 0) throw std::bad_alloc(); return std::malloc(n); }
int main() { std::vector<std::uint8_t> b(100000, 0xff); auto used = [] { return mallinfo2().uordblks + mallinfo2().hblkhd; }; Bitlist l; auto go = [&] { Bitlist x; fuse = 3; try { x.deserialize(b.begin(), b.end()); } catch (...) {} fuse = -1; }; for (int k = 0; k < 5; k++) go(); auto a = used(); for (int k = 0; k < 50; k++) go(); return used() > a + 1000000; }
