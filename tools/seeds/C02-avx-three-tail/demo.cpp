// The input ends where mapped memory ends; a read past it faults.
#include <sys/mman.h>
#include <cstdio>
#include <cstring>
#include "ssz/hasher.hpp"
int main() {
    using ssz::Hasher;
    if (!(Hasher::implemented() & Hasher::IMPL::AVX)) return 0;
    auto *m = static_cast<unsigned char *>(mmap(nullptr, 3 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    munmap(m + 2 * 4096, 4096);
    unsigned char *end = m + 2 * 4096;
    std::memset(m, 5, 2 * 4096);
    unsigned char a[32 * 11], b[32 * 11];
    for (unsigned n = 0; n <= 11; n++) {
        Hasher{Hasher::IMPL::SSE}.hash_64b_blocks(a, end - 64 * n, n);
        Hasher{Hasher::IMPL::AVX}.hash_64b_blocks(b, end - 64 * n, n);
        if (std::memcmp(a, b, 32 * n)) return 1;
    }
    std::puts("ok");
    return 0;
}
