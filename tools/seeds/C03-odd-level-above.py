PROPERTY = 'C03'
NEEDS = 'a chunk list whose count makes a level odd at height 8 or above'
BREAKS = 'the right neighbour of the last node of an odd level is taken from too low a level of the zero hashes'
EDITS = [('ssz/hashtree.cpp', 'if (dist % 2) *std::prev(last) = hash_2_chunks(*std::prev(first), zero_hash_array[height], hasher);', 'if (dist % 2) *std::prev(last) = hash_2_chunks(*std::prev(first), zero_hash_array[height & 7], hasher);')]
