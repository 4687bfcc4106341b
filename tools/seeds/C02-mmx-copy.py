PROPERTY = 'C02'
NEEDS = 'any call of the SSE implementation that copies a block through the MMX registers'
BREAKS = 'the block is copied through MMX registers and the x87 registers are left marked as in use'
EDITS = [('ssz/hasher.cpp', '    while (blocks) {\n        sha256_1_avx(output, input);\n', '    alignas(16) unsigned char stage[2 * constants::BYTES_PER_CHUNK];\n    while (blocks) {\n        const bool straddles = (reinterpret_cast<std::uintptr_t>(input) & 63) > 32;\n        if (straddles) {  // copied first, eight bytes at a time\n            for (std::size_t i = 0; i < sizeof stage; i += 8)\n                asm volatile("movq (%0), %%mm0; movq %%mm0, (%1)" : : "r"(input + i), "r"(stage + i) : "memory", "mm0");\n        }\n        sha256_1_avx(output, straddles ? stage : input);\n')]
