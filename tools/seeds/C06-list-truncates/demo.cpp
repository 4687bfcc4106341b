#include <cstdio>
#include <cstring>
#include <new>
#include <thread>
#include <vector>
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/containers.hpp"
using namespace eth;
using Buf = std::vector<std::uint8_t>;
template <class T> bool dec(T &o, const Buf &b) { return o.deserialize(b.cbegin(), b.cend()); }
static ssz::Chunk H(const ssz::Chunk &a, const ssz::Chunk &b) {
    unsigned char in[64], out[64];
    std::memcpy(in, a.data(), 32); std::memcpy(in + 32, b.data(), 32);
    ssz::Hasher{}.hash_64b_blocks(out, in, 1);
    ssz::Chunk r; std::memcpy(r.data(), out, 32); return r;
}
static ssz::Chunk num(std::uint64_t v) { ssz::Chunk c{}; std::memcpy(c.data(), &v, 8); return c; }

#include <cstdlib>
static long live = 0, countdown = -1;
void *operator new(std::size_t n) {
    if (countdown > 0 && --countdown == 0) throw std::bad_alloc();
    live++;
    return std::malloc(n ? n : 1);
}
void operator delete(void *p) noexcept { if (p) { live--; std::free(p); } }
void operator delete(void *p, std::size_t) noexcept { if (p) { live--; std::free(p); } }

int main() {
    Buf m(8 * 40, 5);
    for (int k = 1; k < 400; k++) {
        ListFixedSizedParts<Slot> l(64);
        bool threw = false, r = false;
        countdown = k;
        try { r = dec(l, m); } catch (const std::bad_alloc &) { threw = true; }
        countdown = -1;
        if (r && l.serialize() != m) { std::printf("allocation %d failed: success with %zu elements\n", k, l.size()); return 1; }
        if (!threw && r) break;
    }
    return 0;
}
