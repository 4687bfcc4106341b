PROPERTY = 'C02'
NEEDS = 'the input ends at the end of a mapped page'
BREAKS = 'the next block is copied ahead of time even when the current one is the last'
EDITS = [('ssz/hasher.cpp', '#include <cpuid.h>\n', '#include <cpuid.h>\n\n#include <cstring>\n'), ('ssz/hasher.cpp', '    while (blocks) {\n        sha256_1_avx(output, input);\n        input += 2*constants::BYTES_PER_CHUNK;\n', '    // Work on an aligned copy and fetch the next block while the kernel runs.\n    alignas(64) unsigned char stage[2][2 * constants::BYTES_PER_CHUNK];\n    unsigned current = 0;\n    if (blocks) std::memcpy(stage[current], input, sizeof(stage[0]));\n    while (blocks) {\n        input += 2*constants::BYTES_PER_CHUNK;\n        std::memcpy(stage[current ^ 1], input, sizeof(stage[0]));\n        sha256_1_avx(output, stage[current]);\n        current ^= 1;\n')]
