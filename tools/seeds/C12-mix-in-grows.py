PROPERTY = 'C12'
NEEDS = 'a list hashed while allocations fail'
BREAKS = 'the mixed in length is written to a block of its own, which the exception of a failing push does not give back'
EDITS = [('ssz/hashtree.cpp', '    auto length_bytes = eth::Bytes32(length);\n    hash_tree_.push_back(hash_2_chunks(this->hash_tree_root(), length_bytes.to_array(), hasher));\n', '    auto* const length_bytes = new eth::Bytes32(length);\n    hash_tree_.push_back(hash_2_chunks(this->hash_tree_root(), length_bytes->to_array(), hasher));\n    delete length_bytes;\n')]
