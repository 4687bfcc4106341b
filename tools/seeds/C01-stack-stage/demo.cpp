#include <cstdio>
#include <cstring>
#include <new>
#include <thread>
#include <vector>
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/containers.hpp"
using namespace eth;
using Buf = std::vector<std::uint8_t>;
template <class T> bool dec(T &o, const Buf &b) { return o.deserialize(b.cbegin(), b.cend()); }
static ssz::Chunk H(const ssz::Chunk &a, const ssz::Chunk &b) {
    unsigned char in[64], out[64];
    std::memcpy(in, a.data(), 32); std::memcpy(in + 32, b.data(), 32);
    ssz::Hasher{}.hash_64b_blocks(out, in, 1);
    ssz::Chunk r; std::memcpy(r.data(), out, 32); return r;
}
static ssz::Chunk num(std::uint64_t v) { ssz::Chunk c{}; std::memcpy(c.data(), &v, 8); return c; }

#include "ssz/hasher.hpp"
#include <thread>
#include <vector>
int main() { std::vector<unsigned char> in(64ul * 200000 + 1), out(32ul * 200000), one(32); in[5] = 1; ssz::Hasher h{ssz::Hasher::IMPL::SSE}; std::thread t([&] { h.hash_64b_blocks(out.data(), in.data() + 1, 200000); }); t.join(); h.hash_64b_blocks(one.data(), in.data() + 1, 1); return std::memcmp(one.data(), out.data(), 32) ? 1 : 0; }
