#include <cstdio>
#include <cstring>
#include <new>
#include <thread>
#include <vector>
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/containers.hpp"
using namespace eth;
using Buf = std::vector<std::uint8_t>;
template <class T> bool dec(T &o, const Buf &b) { return o.deserialize(b.cbegin(), b.cend()); }
static ssz::Chunk H(const ssz::Chunk &a, const ssz::Chunk &b) {
    unsigned char in[64], out[64];
    std::memcpy(in, a.data(), 32); std::memcpy(in + 32, b.data(), 32);
    ssz::Hasher{}.hash_64b_blocks(out, in, 1);
    ssz::Chunk r; std::memcpy(r.data(), out, 32); return r;
}
static ssz::Chunk num(std::uint64_t v) { ssz::Chunk c{}; std::memcpy(c.data(), &v, 8); return c; }

#include <atomic>
#include <cstdlib>
#include <sys/wait.h>
#include <unistd.h>
// every child process is a fresh node whose threads compute their first roots at the same time
static int child() {
    std::atomic<int> ready{0}, bad{0};
    ssz::Chunk want[4];
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; t++)
        ts.emplace_back([&, t] {
            ListFixedSizedParts<Slot> l(1ull << 40);
            dec(l, Buf(8, 1));
            ready++;
            while (ready < 4) {}
            want[t] = l.hash_tree_root();
        });
    for (auto &t : ts) t.join();
    for (int t = 1; t < 4; t++) if (want[t] != want[0]) bad++;
    return bad ? 1 : 0;
}
int main() {
    for (int k = 0; k < 4000; k++) {
        pid_t p = fork();
        if (!p) _exit(child());
        int st = 0;
        waitpid(p, &st, 0);
        if (st) { std::printf("run %d: different roots of one value\n", k); return 1; }
    }
    return 0;
}
