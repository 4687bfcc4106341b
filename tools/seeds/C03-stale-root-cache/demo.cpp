#include <cstdio>
#include <cstring>
#include <new>
#include <thread>
#include <vector>
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/containers.hpp"
using namespace eth;
using Buf = std::vector<std::uint8_t>;
template <class T> bool dec(T &o, const Buf &b) { return o.deserialize(b.cbegin(), b.cend()); }
static ssz::Chunk H(const ssz::Chunk &a, const ssz::Chunk &b) {
    unsigned char in[64], out[64];
    std::memcpy(in, a.data(), 32); std::memcpy(in + 32, b.data(), 32);
    ssz::Hasher{}.hash_64b_blocks(out, in, 1);
    ssz::Chunk r; std::memcpy(r.data(), out, 32); return r;
}
static ssz::Chunk num(std::uint64_t v) { ssz::Chunk c{}; std::memcpy(c.data(), &v, 8); return c; }

int main() {
    ListFixedSizedParts<Checkpoint> l(8);
    Buf b(80, 3);
    if (!dec(l, b)) return 2;
    auto r1 = l.hash_tree_root();
    l.begin()->epoch = Slot{99};
    auto r2 = l.hash_tree_root();
    ListFixedSizedParts<Checkpoint> f(8);
    if (!dec(f, l.serialize())) return 2;
    return r2 == f.hash_tree_root() && r1 != r2 ? 0 : 1;
}
