PROPERTY = 'C06'
NEEDS = 'a failing allocation of the C allocator while a tree of many chunks is hashed'
BREAKS = 'the chunks are copied to cache-line aligned memory first, which nobody checks was there'
EDITS = [('ssz/hashtree.cpp', '    if (vec.size() > 1) hasher.hash_64b_blocks(hash_tree[0].begin(), vec[0].begin(), vec.size() / 2);\n', '    if (vec.size() > 3) {  // the kernels are faster on input that starts a cache line\n        auto* const line = static_cast<unsigned char*>(std::aligned_alloc(64, vec.size() / 2 * 64));\n        std::memcpy(line, vec[0].begin(), vec.size() / 2 * 64);\n        hasher.hash_64b_blocks(hash_tree[0].begin(), line, vec.size() / 2);\n        std::free(line);\n    } else if (vec.size() > 1)\n        hasher.hash_64b_blocks(hash_tree[0].begin(), vec[0].begin(), vec.size() / 2);\n'), ('ssz/hashtree.cpp', '#include <stdexcept>\n', '#include <cstdlib>\n#include <cstring>\n#include <stdexcept>\n')]
