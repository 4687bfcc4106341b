PROPERTY = 'C01'
NEEDS = 'a signal handler that hashes, arriving while the interrupted call is between staging its block and reading it'
BREAKS = 'the message is staged in a thread_local buffer, which a signal handler on the same thread overwrites'
EDITS = [('ssz/hasher.cpp', '#include <cpuid.h>\n', '#include <cpuid.h>\n\n#include <cstring>\n'), ('ssz/hasher.cpp', '    while (blocks) {\n        sha256_1_avx(output, input);\n', '    // Stage the message so that the kernel always reads aligned data.\n    alignas(64) static thread_local unsigned char stage[2 * constants::BYTES_PER_CHUNK];\n    while (blocks) {\n        std::memcpy(stage, input, sizeof(stage));\n        sha256_1_avx(output, stage);\n')]
