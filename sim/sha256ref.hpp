// Plain SHA-256 written from FIPS 180-4; shares nothing with the code under test.
#pragma once
#include <stdint.h>
#include <string.h>

namespace ref {
struct Sha256 {
    static uint32_t ror(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
    static const uint32_t *K() {
        static uint32_t k[64];
        static bool init = false;
        if (!init) {  // fractional parts of the cube roots of the first 64 primes, by integer arithmetic
            int n = 0;
            for (unsigned p = 2; n < 64; p++) {
                bool prime = true;
                for (unsigned d = 2; d * d <= p; d++)
                    if (p % d == 0) prime = false;
                if (!prime) continue;
                unsigned __int128 target = (unsigned __int128)p << 96;  // floor(cbrt(p) * 2^32)
                unsigned __int128 lo = 0, hi = (unsigned __int128)8 << 32;
                while (lo < hi) {
                    unsigned __int128 m = (lo + hi + 1) / 2;
                    if (m * m * m <= target) lo = m;
                    else hi = m - 1;
                }
                k[n++] = (uint32_t)lo;
            }
            init = true;
        }
        return k;
    }
    static void compress(uint32_t h[8], const uint8_t *p) {
        const uint32_t *k = K();
        uint32_t w[64];
        for (int i = 0; i < 16; i++) w[i] = (uint32_t)p[4 * i] << 24 | p[4 * i + 1] << 16 | p[4 * i + 2] << 8 | p[4 * i + 3];
        for (int i = 16; i < 64; i++) {
            uint32_t s0 = ror(w[i - 15], 7) ^ ror(w[i - 15], 18) ^ (w[i - 15] >> 3);
            uint32_t s1 = ror(w[i - 2], 17) ^ ror(w[i - 2], 19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16] + s0 + w[i - 7] + s1;
        }
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], hh = h[7];
        for (int i = 0; i < 64; i++) {
            uint32_t t1 = hh + (ror(e, 6) ^ ror(e, 11) ^ ror(e, 25)) + ((e & f) ^ (~e & g)) + k[i] + w[i];
            uint32_t t2 = (ror(a, 2) ^ ror(a, 13) ^ ror(a, 22)) + ((a & b) ^ (a & c) ^ (b & c));
            hh = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += hh;
    }
    static void hash64(uint8_t out[32], const uint8_t in[64]) {
        uint32_t h[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
        compress(h, in);
        uint8_t pad[64] = {0x80};
        pad[62] = 2;  // 512 bits
        compress(h, pad);
        for (int i = 0; i < 8; i++) {
            out[4 * i] = h[i] >> 24; out[4 * i + 1] = h[i] >> 16; out[4 * i + 2] = h[i] >> 8; out[4 * i + 3] = h[i];
        }
    }
};
}  // namespace ref
