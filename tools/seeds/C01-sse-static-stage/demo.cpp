// Two threads hash their own single blocks again and again; every digest must be the one a lone thread computes.
#include <atomic>
#include <cstdio>
#include <cstring>
#include <thread>
#include <vector>
#include "ssz/hasher.hpp"
int main() {
    using ssz::Hasher;
    if (!(Hasher::implemented() & Hasher::IMPL::AVX)) return 0;  // nothing to run on this CPU
    const Hasher h{Hasher::IMPL::SSE};
    std::atomic<long> bad{0};
    std::vector<std::thread> ts;
    unsigned char in[4][64], want[4][32];
    for (int t = 0; t < 4; t++) {
        for (int i = 0; i < 64; i++) in[t][i] = static_cast<unsigned char>(i * 7 + t * 31);
        h.hash_64b_blocks(want[t], in[t], 1);
    }
    for (int t = 0; t < 4; t++)
        ts.emplace_back([&, t] {
            unsigned char out[32];
            for (long k = 0; k < 3000000 && !bad; k++) {
                h.hash_64b_blocks(out, in[t], 1);
                if (std::memcmp(out, want[t], 32)) bad++;
            }
        });
    for (auto &t : ts) t.join();
    std::printf("wrong digests: %ld\n", bad.load());
    return bad ? 1 : 0;
}
