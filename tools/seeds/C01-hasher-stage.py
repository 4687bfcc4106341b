PROPERTY = 'C01'
NEEDS = 'two calls through one Hasher object at the same time (or one interrupted by the other) with input that is not aligned to 16 bytes'
BREAKS = 'unaligned input goes block by block through a buffer inside the Hasher object'
EDITS = [('ssz/hasher.hpp', '        inline constexpr void hash_64b_blocks(unsigned char* output, const unsigned char* input, std::size_t blocks) const {\n            _hash_64b_blocks(output, input, blocks);\n        }\n', '        inline void hash_64b_blocks(unsigned char* output, const unsigned char* input, std::size_t blocks) const {\n            if (reinterpret_cast<std::uintptr_t>(input) % alignof(Stage) == 0) return _hash_64b_blocks(output, input, blocks);\n            for (; blocks; --blocks, input += sizeof(Stage), output += 32) {  // the kernels are faster on aligned input\n                std::memcpy(stage_.bytes, input, sizeof(Stage));\n                _hash_64b_blocks(output, stage_.bytes, 1);\n            }\n        }\n'), ('ssz/hasher.hpp', '        SHA256_hasher _hash_64b_blocks;\n', '        SHA256_hasher _hash_64b_blocks;\n        struct alignas(16) Stage { unsigned char bytes[64]; };\n        mutable Stage stage_{};\n'), ('ssz/hasher.hpp', '#include <cstdint>\n', '#include <cstdint>\n#include <cstring>\n')]
