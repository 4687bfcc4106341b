PROPERTY = "C01"
NEEDS = "two overlapping calls of the one-block implementation on different threads"
BREAKS = "the message is staged in a static buffer shared by all calls"
EDITS = [("ssz/hasher.cpp", "#include <cpuid.h>\n", "#include <cpuid.h>\n\n#include <algorithm>\n"),
         ("ssz/hasher.cpp", "    while (blocks) {\n        sha256_1_avx(output, input);\n", "    // Stage the message so that the kernel always reads aligned data.\n    alignas(64) static unsigned char stage[2 * constants::BYTES_PER_CHUNK];\n    while (blocks) {\n        std::copy_n(input, sizeof(stage), stage);\n        sha256_1_avx(output, stage);\n")]
