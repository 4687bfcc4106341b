// Software execution of the SHA extensions, so that the real SHA-NI kernel runs on hosts without them.
#pragma once
#include <stdint.h>
#include <string.h>
#include <ucontext.h>

namespace emu {
inline uint32_t ror(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
// Executes one sha256rnds2/msg1/msg2 at rip; false if the instruction is something else.
// The bytes of the instruction are read from code (rip itself may hold a planted trap).
inline bool sha_bytes(ucontext_t *uc, const uint8_t *code) {
    auto *g = uc->uc_mcontext.gregs;
    auto *xm = reinterpret_cast<uint8_t *>(uc->uc_mcontext.fpregs->_xmm);
    const uint8_t *p = code, *s = p;
    unsigned rex = 0;
    if ((*p & 0xf0) == 0x40) rex = *p++;
    if (p[0] != 0x0f || p[1] != 0x38) return false;
    unsigned op = p[2];
    if (op < 0xcb || op > 0xcd) return false;
    p += 3;
    unsigned modrm = *p++, mod = modrm >> 6, reg = ((modrm >> 3) & 7) | ((rex & 4) << 1), rm = modrm & 7;
    static const int rmap[16] = {REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15};
    uint32_t src[4], dst[4], x0[4];
    if (mod == 3) {
        memcpy(src, xm + 16 * (rm | ((rex & 1) << 3)), 16);
    } else {
        uint64_t ea = 0;
        bool riprel = false;
        if (rm == 4) {
            unsigned sib = *p++, idx = ((sib >> 3) & 7) | ((rex & 2) << 2), base = (sib & 7) | ((rex & 1) << 3);
            if (idx != 4) ea += static_cast<uint64_t>(g[rmap[idx]]) << (sib >> 6);
            if ((sib & 7) == 5 && mod == 0) {
                int32_t d;
                memcpy(&d, p, 4);
                p += 4;
                ea += static_cast<int64_t>(d);
            } else
                ea += static_cast<uint64_t>(g[rmap[base]]);
        } else if (rm == 5 && mod == 0) {
            int32_t d;
            memcpy(&d, p, 4);
            p += 4;
            ea = static_cast<int64_t>(d);
            riprel = true;
        } else
            ea = static_cast<uint64_t>(g[rmap[rm | ((rex & 1) << 3)]]);
        if (mod == 1) ea += static_cast<int64_t>(static_cast<int8_t>(*p++));
        if (mod == 2) {
            int32_t d;
            memcpy(&d, p, 4);
            p += 4;
            ea += static_cast<int64_t>(d);
        }
        if (riprel) ea += static_cast<uint64_t>(g[REG_RIP]) + (p - s);
        memcpy(src, reinterpret_cast<void *>(ea), 16);
    }
    memcpy(dst, xm + 16 * reg, 16);
    memcpy(x0, xm, 16);
    uint32_t r[4];
    if (op == 0xcb) {  // rnds2: dst = C D G H (high to low: C,D,G,H), src = A B E F
        uint32_t A = src[3], B = src[2], E = src[1], F = src[0], C = dst[3], D = dst[2], G = dst[1], H = dst[0];
        for (int i = 0; i < 2; i++) {
            uint32_t t1 = ((E & F) ^ (~E & G)) + (ror(E, 6) ^ ror(E, 11) ^ ror(E, 25)) + x0[i] + H;
            uint32_t t2 = ((A & B) ^ (A & C) ^ (B & C)) + (ror(A, 2) ^ ror(A, 13) ^ ror(A, 22));
            H = G; G = F; F = E; E = t1 + D; D = C; C = B; B = A; A = t1 + t2;
        }
        r[3] = A; r[2] = B; r[1] = E; r[0] = F;
    } else if (op == 0xcc) {
        auto s0 = [](uint32_t x) { return ror(x, 7) ^ ror(x, 18) ^ (x >> 3); };
        r[3] = dst[3] + s0(src[0]);
        r[2] = dst[2] + s0(dst[3]);
        r[1] = dst[1] + s0(dst[2]);
        r[0] = dst[0] + s0(dst[1]);
    } else {
        auto s1 = [](uint32_t x) { return ror(x, 17) ^ ror(x, 19) ^ (x >> 10); };
        r[0] = dst[0] + s1(src[2]);
        r[1] = dst[1] + s1(src[3]);
        r[2] = dst[2] + s1(r[0]);
        r[3] = dst[3] + s1(r[1]);
    }
    memcpy(xm + 16 * reg, r, 16);
    g[REG_RIP] += p - s;
    return true;
}
inline bool sha(ucontext_t *uc) { return sha_bytes(uc, reinterpret_cast<const uint8_t *>(uc->uc_mcontext.gregs[REG_RIP])); }
}  // namespace emu
