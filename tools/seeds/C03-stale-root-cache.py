PROPERTY = 'C03'
NEEDS = 'an element is changed in place through an iterator after the root was computed, with the length unchanged'
BREAKS = 'lists of containers keep their root and compute it anew only when the length changed'
EDITS = [('common/containers.hpp', '        std::vector<ssz::Chunk> chunks{};\n        chunks.reserve(m_arr.size());\n        for (auto &part : m_arr) chunks.push_back(part.hash_tree_root());\n        if (chunks.empty()) {\n            ssz::Chunk chunk{};\n            chunks.push_back(chunk);\n        }\n        ssz::HashTree ht{chunks, limit_};\n        ht.mix_in(m_arr.size());\n        return ht.hash_tree();\n    }\n    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_x(); }\n', '        // elements hardly ever change once they are in a list\n        if (cache_.size() && cached_size_ == m_arr.size()) return cache_;\n        std::vector<ssz::Chunk> chunks{};\n        chunks.reserve(m_arr.size());\n        for (auto &part : m_arr) chunks.push_back(part.hash_tree_root());\n        if (chunks.empty()) {\n            ssz::Chunk chunk{};\n            chunks.push_back(chunk);\n        }\n        ssz::HashTree ht{chunks, limit_};\n        ht.mix_in(m_arr.size());\n        cached_size_ = m_arr.size();\n        return cache_ = ht.hash_tree();\n    }\n    mutable std::vector<ssz::Chunk> cache_;\n    mutable std::size_t cached_size_ = 0;\n    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_x(); }\n'), ('common/containers.hpp', '    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {\n        m_arr.clear();\n        if (std::distance(it, end) % T::ssz_size) return false;\n', '    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {\n        m_arr.clear();\n        cache_.clear();\n        if (std::distance(it, end) % T::ssz_size) return false;\n')]
