PROPERTY = 'C01'
NEEDS = 'the first call through a Hasher object, met by another call through it before the implementation was looked up'
BREAKS = 'the implementation is looked up at the first use, which is noted before it is done'
EDITS = [('ssz/hasher.hpp', '        inline constexpr void hash_64b_blocks(unsigned char* output, const unsigned char* input, std::size_t blocks) const {\n            _hash_64b_blocks(output, input, blocks);\n        }\n', '        inline void hash_64b_blocks(unsigned char* output, const unsigned char* input, std::size_t blocks) const {\n            if (!looked_up_) {\n                looked_up_ = true;\n                if (!_hash_64b_blocks) _hash_64b_blocks = best_sha256_implementation();\n            }\n            _hash_64b_blocks(output, input, blocks);\n        }\n'), ('ssz/hasher.hpp', '        SHA256_hasher _hash_64b_blocks;\n', '        mutable SHA256_hasher _hash_64b_blocks = nullptr;\n        mutable volatile bool looked_up_ = false;\n'), ('ssz/hasher.hpp', '        Hasher() : _hash_64b_blocks { best_sha256_implementation() } {};\n', '        Hasher() = default;\n'), ('ssz/hasher.cpp', '            _hash_64b_blocks = best_sha256_implementation();\n    }', '            break;\n    }')]
