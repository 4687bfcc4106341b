#include <cstdio>
#include <cstring>
#include <new>
#include <thread>
#include <vector>
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/containers.hpp"
using namespace eth;
using Buf = std::vector<std::uint8_t>;
template <class T> bool dec(T &o, const Buf &b) { return o.deserialize(b.cbegin(), b.cend()); }
static ssz::Chunk H(const ssz::Chunk &a, const ssz::Chunk &b) {
    unsigned char in[64], out[64];
    std::memcpy(in, a.data(), 32); std::memcpy(in + 32, b.data(), 32);
    ssz::Hasher{}.hash_64b_blocks(out, in, 1);
    ssz::Chunk r; std::memcpy(r.data(), out, 32); return r;
}
static ssz::Chunk num(std::uint64_t v) { ssz::Chunk c{}; std::memcpy(c.data(), &v, 8); return c; }

#include "beacon-chain/attestation.hpp"
struct Two : ssz::Container { eth::ListFixedSizedParts<eth::Slot> a{8}, b{8};
 std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&a, &b}); }
 eth::BytesVector serialize() const override { return serialize_({&a, &b}); }
 bool deserialize(ssz::SSZIterator i, ssz::SSZIterator e) override { return deserialize_(i, e, {&a, &b}); }
 YAML::Node encode() const override { return {}; } bool decode(const YAML::Node &) override { return false; } };
int main() { Two t, e; t.a.data().push_back(7); e.b.data().push_back(3); auto m = e.serialize(); if (!t.deserialize(m.begin(), m.end())) return 1; return t.serialize() == m ? 0 : 1; }
