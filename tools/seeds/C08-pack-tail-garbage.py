PROPERTY = 'C08'
NEEDS = 'a value whose length is not a multiple of 32 bytes, hashed after other data lay on the stack'
BREAKS = 'the last chunk of packed bytes is not cleared before the tail is copied into it'
EDITS = [('ssz/hashtree.cpp', '            Chunk chunk{};\n            std::copy(it,', '            Chunk chunk;  // NOLINT\n            std::copy(it,')]
