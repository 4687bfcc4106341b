// Every batch size must give the digests of the one-block kernel.
#include <cstdio>
#include <cstring>
#include <vector>
#include "ssz/hasher.hpp"
int main() {
    using ssz::Hasher;
    if (!(Hasher::implemented() & Hasher::IMPL::AVX)) return 0;
    const Hasher one{Hasher::IMPL::SSE}, four{Hasher::IMPL::AVX};
    for (unsigned n = 0; n <= 13; n++) {
        std::vector<unsigned char> in(64 * n + 1), a(32 * n + 1), b(32 * n + 1);
        for (size_t i = 0; i < in.size(); i++) in[i] = static_cast<unsigned char>(i * 13 + n);
        one.hash_64b_blocks(a.data(), in.data(), n);
        four.hash_64b_blocks(b.data(), in.data(), n);
        if (a != b) { std::printf("batch of %u blocks is wrong\n", n); return 1; }
    }
    std::puts("ok");
    return 0;
}
