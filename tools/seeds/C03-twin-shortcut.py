PROPERTY = 'C03'
NEEDS = 'a chunk list with an odd number of nodes on some level above the first, the last node of which equals the zero subtree below it'
BREAKS = 'a subtree of zeros at the right edge is taken from the table, by comparing with the wrong level'
EDITS = [('ssz/hashtree.cpp', '        if (dist % 2) *std::prev(last) = hash_2_chunks(*std::prev(first), zero_hash_array[height], hasher);', '        if (dist % 2) *std::prev(last) = *std::prev(first) == zero_hash_array[height] ? zero_hash_array[std::min(height + 2, ZERO_HASH_DEPTH - 1)] : hash_2_chunks(*std::prev(first), zero_hash_array[height], hasher);')]
