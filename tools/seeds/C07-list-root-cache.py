PROPERTY = 'C07'
NEEDS = 'two threads that ask a shared list for its root at the same time, one of them interrupted while it fills the cache'
BREAKS = 'a list keeps its root in a cache that const operations fill'
EDITS = [('common/containers.hpp', '    std::vector<ssz::Chunk> hash_tree_x() const requires BasicObject<T> {\n        auto ser = this->serialize();', '    mutable bool cached_ = false;\n    mutable BytesVector cached_for_;\n    mutable std::vector<ssz::Chunk> cache_;\n\n    std::vector<ssz::Chunk> hash_tree_x() const requires BasicObject<T> {\n        auto ser = this->serialize();\n        if (cached_ && cached_for_ == ser) return cache_;\n        cached_ = true;\n        cached_for_ = ser;'), ('common/containers.hpp', '        ssz::HashTree ht{ser, limit};\n        ht.mix_in(m_arr.size());\n        return ht.hash_tree();', '        ssz::HashTree ht{ser, limit};\n        ht.mix_in(m_arr.size());\n        cache_ = ht.hash_tree();\n        return cache_;'), ('common/containers.hpp', '    bool operator==(const ListFixedSizedParts &) const = default;', '    bool operator==(const ListFixedSizedParts &o) const { return m_arr == o.m_arr && limit_ == o.limit_; }')]
