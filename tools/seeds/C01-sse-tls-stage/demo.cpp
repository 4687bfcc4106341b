// A timer signal whose handler hashes interrupts a loop of hashing calls; every digest must be right.
#include <csignal>
#include <cstdio>
#include <cstring>
#include <sys/time.h>
#include "ssz/hasher.hpp"
static const ssz::Hasher h{ssz::Hasher::IMPL::SSE};
static unsigned char hin[64], hout[32];
static volatile long fired = 0;
static void on(int) { h.hash_64b_blocks(hout, hin, 1); fired = fired + 1; }
int main() {
    if (!(ssz::Hasher::implemented() & ssz::Hasher::IMPL::AVX)) return 0;
    static unsigned char in[64 * 64], out[64 * 32], want[64 * 32];
    for (int i = 0; i < 64 * 64; i++) in[i] = static_cast<unsigned char>(i * 13 + 5);
    for (int i = 0; i < 64; i++) hin[i] = 0xa5;
    h.hash_64b_blocks(want, in, 64);
    std::signal(SIGALRM, on);
    itimerval t{{0, 50}, {0, 50}};
    setitimer(ITIMER_REAL, &t, nullptr);
    long bad = 0;
    for (long k = 0; k < 6000000 && !bad && fired < 600000; k++) {
        h.hash_64b_blocks(out, in, 64);
        if (std::memcmp(out, want, sizeof out)) bad++;
    }
    itimerval z{};
    setitimer(ITIMER_REAL, &z, nullptr);
    std::printf("signals %ld, wrong digests %ld\n", fired, bad);
    return bad ? 1 : 0;
}
