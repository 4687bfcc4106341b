PROPERTY = 'C03'
NEEDS = 'a list whose content is all zero bytes and whose limit is deeper than the content'
BREAKS = 'the chain of hashes up to the limit is taken from the table of zero subtrees, one level too low'
EDITS = [('ssz/hashtree.cpp', '        *last = hash_2_chunks(*std::prev(last), zero_hash_array[height], hasher);  // NOLINT\n', '        if (*std::prev(last) == zero_hash_array[height])  // a zero subtree next to a zero subtree\n            *last = zero_hash_array[height];\n        else\n            *last = hash_2_chunks(*std::prev(last), zero_hash_array[height], hasher);  // NOLINT\n')]
