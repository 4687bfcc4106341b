#include <cstdio>
#include <cstring>
#include <new>
#include <thread>
#include <vector>
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/containers.hpp"
using namespace eth;
using Buf = std::vector<std::uint8_t>;
template <class T> bool dec(T &o, const Buf &b) { return o.deserialize(b.cbegin(), b.cend()); }
static ssz::Chunk H(const ssz::Chunk &a, const ssz::Chunk &b) {
    unsigned char in[64], out[64];
    std::memcpy(in, a.data(), 32); std::memcpy(in + 32, b.data(), 32);
    ssz::Hasher{}.hash_64b_blocks(out, in, 1);
    ssz::Chunk r; std::memcpy(r.data(), out, 32); return r;
}
static ssz::Chunk num(std::uint64_t v) { ssz::Chunk c{}; std::memcpy(c.data(), &v, 8); return c; }

#include <cstdlib>
static long live = 0, countdown = -1;
void *operator new(std::size_t n) {
    if (countdown > 0 && --countdown == 0) throw std::bad_alloc();
    live++;
    return std::malloc(n ? n : 1);
}
void operator delete(void *p) noexcept { if (p) { live--; std::free(p); } }
void operator delete(void *p, std::size_t) noexcept { if (p) { live--; std::free(p); } }

int main() {
    Attestation a;
    { auto warm = a.serialize(); }
    for (int k = 1; k < 200; k++) {
        long before = live;
        bool threw = false;
        countdown = k;
        try { auto s = a.serialize(); } catch (const std::bad_alloc &) { threw = true; }
        countdown = -1;
        if (live != before) { std::printf("allocation %d failed: %ld blocks lost\n", k, live - before); return 1; }
        if (!threw) break;
    }
    return 0;
}
