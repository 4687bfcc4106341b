PROPERTY = 'C07'
NEEDS = 'two threads compute roots at the same time before the table of zero hashes has grown far enough'
BREAKS = 'zero hashes are computed when first needed into a table shared without synchronisation, and the level counter is published before the hash is written'
EDITS = [('ssz/hashtree.cpp', 'const auto zero_hash_array = zero_hash_array_helper<ZERO_HASH_DEPTH>();\n', '// Most processes never need the higher levels: fill the table as far as it is used.\nstruct ZeroHashes {\n    std::array<Chunk, ZERO_HASH_DEPTH> table{};\n    std::size_t known = 1;\n    const Chunk& operator[](std::size_t level) {\n        static const ssz::Hasher hasher{};\n        while (known <= level) {\n            const auto next = known++;\n            table[next] = hash_2_chunks(table[next - 1], table[next - 1], hasher);\n        }\n        return table[level];\n    }\n} zero_hash_array;\n')]
