PROPERTY = 'C05'
NEEDS = 'a list object that already holds elements receives a message with fewer elements'
BREAKS = 'the list decoder overwrites the elements it holds and forgets to drop the ones past the new end'
EDITS = [('common/containers.hpp', '        m_arr.clear();\n        if (std::distance(it, end) % T::ssz_size) return false;\n', '        if (std::distance(it, end) % T::ssz_size) return false;\n'), ('common/containers.hpp', '        for (auto i = it; i != end; i += T::ssz_size) {\n            T obj;\n            if (!obj.deserialize(i, i + T::ssz_size)) return false;\n            m_arr.push_back(obj);\n        }\n        return true;\n', '        // elements that are already there are overwritten in place\n        std::size_t index = 0;\n        for (auto i = it; i != end; i += T::ssz_size, ++index) {\n            if (index == m_arr.size()) m_arr.emplace_back();\n            if (!m_arr[index].deserialize(i, i + T::ssz_size)) return false;\n        }\n        return true;\n')]
