PROPERTY = 'C06'
NEEDS = 'memory running out while a root is computed'
BREAKS = 'hash_tree_root is declared noexcept: an allocation failure ends the process'
EDITS = [('ssz/ssz_container.hpp', 'Chunk hash_tree_root() const { return', 'Chunk hash_tree_root() const noexcept { return')]
