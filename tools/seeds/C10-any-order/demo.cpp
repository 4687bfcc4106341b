#include <cstdio>
#include <cstring>
#include <new>
#include <thread>
#include <vector>
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/containers.hpp"
using namespace eth;
using Buf = std::vector<std::uint8_t>;
template <class T> bool dec(T &o, const Buf &b) { return o.deserialize(b.cbegin(), b.cend()); }
static ssz::Chunk H(const ssz::Chunk &a, const ssz::Chunk &b) {
    unsigned char in[64], out[64];
    std::memcpy(in, a.data(), 32); std::memcpy(in + 32, b.data(), 32);
    ssz::Hasher{}.hash_64b_blocks(out, in, 1);
    ssz::Chunk r; std::memcpy(r.data(), out, 32); return r;
}
static ssz::Chunk num(std::uint64_t v) { ssz::Chunk c{}; std::memcpy(c.data(), &v, 8); return c; }

#include "beacon-chain/attestation.hpp"
int main() { eth::IndexedAttestation x, y; y.data.slot = 5; using L = eth::ListVariableSizedParts<eth::IndexedAttestation>; L a{8}, b{8}; auto enc = [&](const eth::IndexedAttestation &p, const eth::IndexedAttestation &q) { auto s = p.serialize(), t = q.serialize(); auto r = eth::Bytes4(std::uint32_t(8)).serialize(), o = eth::Bytes4(std::uint32_t(8 + s.size())).serialize(); r.insert(r.end(), o.begin(), o.end()); r.insert(r.end(), s.begin(), s.end()); r.insert(r.end(), t.begin(), t.end()); return r; };
 auto m = enc(x, y), n = enc(y, x); if (!a.deserialize(m.begin(), m.end()) || !b.deserialize(n.begin(), n.end())) return 1; return a == b; }
