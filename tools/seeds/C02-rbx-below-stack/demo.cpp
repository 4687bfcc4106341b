// A signal is delivered after every single instruction of the call (trap flag); the callee-saved registers must survive.
#include <csignal>
#include <cstdio>
#include <ucontext.h>
#include "ssz/hasher.hpp"
// traced(rbx, output, input, blocks) calls the kernel single stepped and returns rbx as it is afterwards
extern "C" unsigned long traced(unsigned long, unsigned char *, const unsigned char *, unsigned long);
asm(R"(
.text
.globl traced
traced:
    push %rbx
    push %rbp
    push %r12
    push %r13
    push %r14
    push %r15
    sub $8, %rsp
    mov %rdi, %rbx
    mov %rsi, %rdi
    mov %rdx, %rsi
    mov %rcx, %rdx
    pushfq
    orq $0x100, (%rsp)
    popfq
    call sha256_4_avx
    pushfq
    andq $-257, (%rsp)
    popfq
    mov %rbx, %rax
    add $8, %rsp
    pop %r15
    pop %r14
    pop %r13
    pop %r12
    pop %rbp
    pop %rbx
    ret
)");
static volatile long traps;
static void onTrap(int, siginfo_t *, void *) { traps = traps + 1; }
int main() {
    using ssz::Hasher;
    if (!(Hasher::implemented() & Hasher::IMPL::AVX)) return 0;
    struct sigaction sa {};
    sa.sa_sigaction = onTrap;
    sa.sa_flags = SA_SIGINFO;
    sigaction(SIGTRAP, &sa, nullptr);
    static unsigned char in[64 * 4], out[32 * 4];
    unsigned long rbx = 0x1122334455667788ul, got = 0;
    for (unsigned long n : {0ul, 1ul, 4ul}) {
        got = traced(rbx, out, in, n);
        if (got != rbx) { std::printf("rbx changed to %lx over %ld signals\n", got, traps); return 1; }
    }
    std::printf("ok, %ld signals\n", traps);
    return traps < 10;
}
