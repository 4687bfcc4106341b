#include <cstdio>
#include <cstring>
#include <new>
#include <thread>
#include <vector>
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/containers.hpp"
using namespace eth;
using Buf = std::vector<std::uint8_t>;
template <class T> bool dec(T &o, const Buf &b) { return o.deserialize(b.cbegin(), b.cend()); }
static ssz::Chunk H(const ssz::Chunk &a, const ssz::Chunk &b) {
    unsigned char in[64], out[64];
    std::memcpy(in, a.data(), 32); std::memcpy(in + 32, b.data(), 32);
    ssz::Hasher{}.hash_64b_blocks(out, in, 1);
    ssz::Chunk r; std::memcpy(r.data(), out, 32); return r;
}
static ssz::Chunk num(std::uint64_t v) { ssz::Chunk c{}; std::memcpy(c.data(), &v, 8); return c; }

#include "beacon-chain/attestation.hpp"
#include <cstdlib>
#include <new>
static long left = -1;
void *operator new(std::size_t n) { if (left == 0) throw std::bad_alloc(); if (left > 0) left--; return std::malloc(n ? n : 1); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
int main() { eth::IndexedAttestation a; for (int i = 0; i < 40; i++) a.attesting_indices.data().push_back(i); auto good = eth::IndexedAttestation(a).serialize();
 for (long k = 0; k < 400; k++) { left = k; try { a.serialize(); left = -1; } catch (const std::bad_alloc &) { left = -1; } if (a.serialize() != good) return 1; } return 0; }
