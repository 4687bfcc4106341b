PROPERTY = 'C08'
NEEDS = 'an empty list of elements of variable size, hashed where the stack held something else'
BREAKS = 'the single chunk of an empty list is not cleared'
EDITS = [('common/containers.hpp', '                       [](const T &part) { return part.hash_tree_root(); });\n        if (chunks.empty()) {\n            ssz::Chunk chunk{};\n', '                       [](const T &part) { return part.hash_tree_root(); });\n        if (chunks.empty()) {\n            ssz::Chunk chunk;  // stands for the missing elements\n')]
