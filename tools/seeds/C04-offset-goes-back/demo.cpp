#include <cstdio>
#include <cstring>
#include <new>
#include <thread>
#include <vector>
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/containers.hpp"
using namespace eth;
using Buf = std::vector<std::uint8_t>;
template <class T> bool dec(T &o, const Buf &b) { return o.deserialize(b.cbegin(), b.cend()); }
static ssz::Chunk H(const ssz::Chunk &a, const ssz::Chunk &b) {
    unsigned char in[64], out[64];
    std::memcpy(in, a.data(), 32); std::memcpy(in + 32, b.data(), 32);
    ssz::Hasher{}.hash_64b_blocks(out, in, 1);
    ssz::Chunk r; std::memcpy(r.data(), out, 32); return r;
}
static ssz::Chunk num(std::uint64_t v) { ssz::Chunk c{}; std::memcpy(c.data(), &v, 8); return c; }

// three variable parts; the third offset points back to the first
struct Probe : ssz::Container {
    bool negative = false;
    std::vector<std::uint8_t> serialize() const override { return {}; }
    bool deserialize(ssz::SSZIterator i, ssz::SSZIterator e) override { if (e - i < 0) negative = true; return e - i >= 0; }
    YAML::Node encode() const override { return {}; }
    bool decode(const YAML::Node &) override { return false; }
};
struct T2 : ssz::Container {
    Probe a, b, c;
    std::vector<std::uint8_t> serialize() const override { return serialize_({&a, &b, &c}); }
    bool deserialize(ssz::SSZIterator i, ssz::SSZIterator e) override { return deserialize_(i, e, {&a, &b, &c}); }
    YAML::Node encode() const override { return {}; }
    bool decode(const YAML::Node &) override { return false; }
};
int main() {
    T2 t;
    Buf m{12, 0, 0, 0, 14, 0, 0, 0, 12, 0, 0, 0, 0, 0, 0};
    bool r = dec(t, m);
    std::printf("accepted %d, part of negative length %d\n", r, t.b.negative);
    return r || t.b.negative ? 1 : 0;
}
