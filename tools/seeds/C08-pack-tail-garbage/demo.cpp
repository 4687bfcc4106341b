#include <cstdio>
#include <cstring>
#include <new>
#include <thread>
#include <vector>
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/containers.hpp"
using namespace eth;
using Buf = std::vector<std::uint8_t>;
template <class T> bool dec(T &o, const Buf &b) { return o.deserialize(b.cbegin(), b.cend()); }
static ssz::Chunk H(const ssz::Chunk &a, const ssz::Chunk &b) {
    unsigned char in[64], out[64];
    std::memcpy(in, a.data(), 32); std::memcpy(in + 32, b.data(), 32);
    ssz::Hasher{}.hash_64b_blocks(out, in, 1);
    ssz::Chunk r; std::memcpy(r.data(), out, 32); return r;
}
static ssz::Chunk num(std::uint64_t v) { ssz::Chunk c{}; std::memcpy(c.data(), &v, 8); return c; }

__attribute__((noinline)) void dirty(std::uint8_t v) { volatile std::uint8_t a[8192]; for (auto &x : a) x = v; }
int main() {
    Bytes<33> b;
    for (auto v : {0x00, 0xff, 0x5a}) {
        b[3] = std::uint8_t(v);
        dirty(std::uint8_t(v));
        ssz::Chunk c{}, z{};
        c[3] = std::uint8_t(v);
        if (b.hash_tree_root() != H(c, z)) return 1;
    }
    return 0;
}
