PROPERTY = 'C02'
NEEDS = 'another thread changes the bytes right after the output while a batch with an odd number of blocks is hashed'
BREAKS = 'digests are written in pairs; the 32 bytes after the last one are saved and put back'
EDITS = [('ssz/hasher.cpp', '#include <cpuid.h>\n', '#include <cpuid.h>\n\n#include <cstring>\n'), ('ssz/hasher.cpp', '    while (blocks) {\n        sha256_1_avx(output, input);\n', '    // Digests leave in groups of two; keep what lies behind an odd last one.\n    unsigned char tail[constants::BYTES_PER_CHUNK];\n    alignas(64) unsigned char pair[2 * constants::BYTES_PER_CHUNK];\n    while (blocks) {\n        if (blocks % 2) {\n            std::memcpy(tail, output + constants::BYTES_PER_CHUNK, sizeof(tail));\n            sha256_1_avx(pair, input);\n            std::memcpy(pair + constants::BYTES_PER_CHUNK, tail, sizeof(tail));\n            std::memcpy(output, pair, sizeof(pair));\n        } else\n            sha256_1_avx(output, input);\n')]
