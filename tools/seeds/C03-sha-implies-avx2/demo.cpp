// A stand-in for the cpuid instruction reports SHA extensions, AVX and no AVX2; the dispatcher may not pick the AVX2 code.
#include <cpuid.h>
#include <cstdio>
#include <cstdint>
#include <cstddef>
static bool used_avx2 = false;
extern "C" void sha256_8_avx2(unsigned char *, const unsigned char *, std::size_t) { used_avx2 = true; }
extern "C" void sha256_4_avx(unsigned char *, const unsigned char *, std::size_t) {}
extern "C" void sha256_shani(unsigned char *, const unsigned char *, std::size_t) {}
extern "C" void sha256_1_avx(unsigned char *, const unsigned char *) {}
extern "C" int fake(unsigned leaf, unsigned, unsigned *a, unsigned *b, unsigned *c, unsigned *d) {
    *a = *b = *c = *d = 0;
    if (leaf == 7) *b = bit_SHA;
    if (leaf == 1) *c = bit_AVX | bit_SSE3;
    return 1;
}
#define __get_cpuid_count fake
static int fake1(unsigned leaf, unsigned *a, unsigned *b, unsigned *c, unsigned *d) { return fake(leaf, 0, a, b, c, d); }
#define __get_cpuid fake1
#undef __cpuid_count
#define __cpuid_count(l, s, a, b, c, d) fake(l, s, &a, &b, &c, &d)
#undef __cpuid
#define __cpuid(l, a, b, c, d) fake(l, 0, &a, &b, &c, &d)
#include "ssz/hasher.cpp"
int main() {
    unsigned char o[32], i[64] = {};
    ssz::Hasher{}.hash_64b_blocks(o, i, 1);
    std::printf("AVX2 code on a CPU without AVX2: %d\n", used_avx2);
    return used_avx2 ? 1 : 0;
}
