#include <cstdio>
#include <cstring>
#include <new>
#include <thread>
#include <vector>
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/beacon_block.hpp"
#include "beacon-chain/beacon_state.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/containers.hpp"
using namespace eth;
using Buf = std::vector<std::uint8_t>;
template <class T> bool dec(T &o, const Buf &b) { return o.deserialize(b.cbegin(), b.cend()); }
static ssz::Chunk H(const ssz::Chunk &a, const ssz::Chunk &b) {
    unsigned char in[64], out[64];
    std::memcpy(in, a.data(), 32); std::memcpy(in + 32, b.data(), 32);
    ssz::Hasher{}.hash_64b_blocks(out, in, 1);
    ssz::Chunk r; std::memcpy(r.data(), out, 32); return r;
}
static ssz::Chunk num(std::uint64_t v) { ssz::Chunk c{}; std::memcpy(c.data(), &v, 8); return c; }

int main() {
    BeaconState s; Buf b = s.serialize();
    auto probe = [&](Buf c, std::size_t at, std::uint8_t v) { c[at] = v; return c; };
    // the fixed part ends with justification bits (1 byte) and three checkpoints of 40 bytes, before the (empty) lists
    std::size_t first; { std::uint32_t f; std::size_t o = 8 + 32 + 8 + 16 + 112 + 2 * 32 * s.block_roots().size(); std::memcpy(&f, &b[o], 4); first = f; }
    Buf c = probe(probe(b, first - 120, 7), first - 80, 9);
    if (!dec(s, c)) return 2;
    return std::uint64_t(s.previous_justified_checkpoint().epoch) == 7 && std::uint64_t(s.current_justified_checkpoint().epoch) == 9 ? 0 : 1;
}
