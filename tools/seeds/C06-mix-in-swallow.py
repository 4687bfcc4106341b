PROPERTY = 'C06'
NEEDS = 'memory running out in the very step that adds the length to the tree of a list'
BREAKS = 'an allocation failure while the length is mixed in is swallowed: the root lacks the length'
EDITS = [('ssz/hashtree.cpp', '    hash_tree_.push_back(hash_2_chunks(this->hash_tree_root(), length_bytes.to_array(), hasher));', '    try {\n        hash_tree_.push_back(hash_2_chunks(this->hash_tree_root(), length_bytes.to_array(), hasher));\n    } catch (const std::exception&) {\n        hash_tree_.resize(hash_tree_.size());  // as it was\n    }')]
