// A neighbour thread counts in the word right behind the digest; no count may be lost.
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <thread>
#include "ssz/hasher.hpp"
int main() {
    if (!(ssz::Hasher::implemented() & ssz::Hasher::IMPL::AVX)) return 0;
    const ssz::Hasher h{ssz::Hasher::IMPL::SSE};
    struct { alignas(64) unsigned char digest[32]; std::atomic<std::uint64_t> count; unsigned char rest[56]; } s{};
    unsigned char in[64] = {1, 2, 3};
    std::atomic<bool> stop{false};
    std::thread t([&] { while (!stop) h.hash_64b_blocks(s.digest, in, 1); });
    std::uint64_t want = 0;
    long bad = 0;
    for (long k = 0; k < 30000000 && !bad; k++) {
        s.count.store(++want);
        for (int j = 0; j < 20; j++)
            if (s.count.load() != want) bad++;
    }
    stop = true;
    t.join();
    std::printf("lost stores: %ld\n", bad);
    return bad ? 1 : 0;
}
