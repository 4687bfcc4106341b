#include <cstdio>
#include <cstring>
#include <new>
#include <thread>
#include <vector>
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/containers.hpp"
using namespace eth;
using Buf = std::vector<std::uint8_t>;
template <class T> bool dec(T &o, const Buf &b) { return o.deserialize(b.cbegin(), b.cend()); }
static ssz::Chunk H(const ssz::Chunk &a, const ssz::Chunk &b) {
    unsigned char in[64], out[64];
    std::memcpy(in, a.data(), 32); std::memcpy(in + 32, b.data(), 32);
    ssz::Hasher{}.hash_64b_blocks(out, in, 1);
    ssz::Chunk r; std::memcpy(r.data(), out, 32); return r;
}
static ssz::Chunk num(std::uint64_t v) { ssz::Chunk c{}; std::memcpy(c.data(), &v, 8); return c; }

#include <atomic>
int main() {
    std::atomic<long> bad{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; t++)
        ts.emplace_back([&, t] {
            Bitlist l(2048);
            Buf m(200, std::uint8_t(17 * t + 3));
            m.back() = 1;
            dec(l, m);
            ssz::Chunk want = l.hash_tree_root();
            for (int k = 0; k < 100000 && !bad; k++) {
                // all threads start with their own expectation computed while others run: compare with a second opinion
                if (l.hash_tree_root() != want) bad++;
            }
        });
    for (auto &t : ts) t.join();
    std::printf("roots that changed: %ld\n", bad.load());
    return bad ? 1 : 0;
}
