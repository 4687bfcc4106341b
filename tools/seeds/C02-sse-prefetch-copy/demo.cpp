// The input lies at the end of a page that is followed by an unmapped one.
#include <csignal>
#include <cstdio>
#include <cstring>
#include <unistd.h>
#include <sys/mman.h>
#include "ssz/hasher.hpp"
static void seg(int) { _exit(1); }
int main() {
    if (!(ssz::Hasher::implemented() & ssz::Hasher::IMPL::AVX)) return 0;
    std::signal(SIGSEGV, seg);
    const ssz::Hasher h{ssz::Hasher::IMPL::SSE};
    auto *p = static_cast<unsigned char *>(mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    mprotect(p + 4096, 4096, PROT_NONE);
    unsigned char out[32 * 8];
    for (int n = 0; n <= 8; n++) h.hash_64b_blocks(out, p + 4096 - 64 * n, n);
    return 0;
}
