PROPERTY = 'C10'
NEEDS = 'two byte strings of 20 bytes that differ in their last four bytes only'
BREAKS = 'byte strings are compared eight bytes at a time, without the remainder'
EDITS = [('common/bytes.hpp', '        return m_arr == r.to_array();\n', '        if constexpr (N >= 8) {\n            for (std::size_t i = 0; i + 8 <= N; i += 8)\n                if (std::memcmp(m_arr.data() + i, r.to_array().data() + i, 8)) return false;\n            return true;\n        }\n        return m_arr == r.to_array();\n')]
