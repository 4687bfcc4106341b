PROPERTY = 'C01'
NEEDS = 'a batch of more than 4 GB'
BREAKS = 'long batches are handed to the kernel in pieces, whose place is computed in 32 bits'
EDITS = [('ssz/hasher.hpp', '        inline constexpr void hash_64b_blocks(unsigned char* output, const unsigned char* input, std::size_t blocks) const {\n            _hash_64b_blocks(output, input, blocks);\n        }\n', '        inline constexpr void hash_64b_blocks(unsigned char* output, const unsigned char* input, std::size_t blocks) const {\n            constexpr std::uint32_t piece = 1 << 16;  // stays in the cache\n            for (std::uint32_t done = 0; blocks; done += piece) {\n                const auto now = blocks < piece ? blocks : piece;\n                _hash_64b_blocks(output + done * 32, input + done * 64, now);\n                blocks -= now;\n            }\n        }\n')]
