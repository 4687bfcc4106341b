PROPERTY = 'C12'
NEEDS = 'threads that end after having hashed something'
BREAKS = 'every thread keeps a scratch buffer for hash trees that its end does not give back'
EDITS = [('ssz/hashtree.cpp', '    if (vec.size() % 2) *std::prev(last) = hash_2_chunks(vec.back(), zero_hash, hasher);\n', '    static thread_local auto* const pair = new std::array<Chunk, 2>;  // no destructor to run at the end of the process\n    if (vec.size() % 2) {\n        *pair = {vec.back(), zero_hash};\n        hasher.hash_64b_blocks(std::prev(last)->data(), pair->front().data(), 1);\n    }\n')]
