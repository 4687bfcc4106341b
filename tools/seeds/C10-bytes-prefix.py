PROPERTY = 'C10'
NEEDS = 'two byte strings of more than 32 bytes that differ only after the first 32'
BREAKS = 'comparison of byte strings looks at the first chunk only'
EDITS = [('common/bytes.hpp', '        if (N != M) return false;\n        return m_arr == r.to_array();\n', '        if (N != M) return false;\n        // long strings are keys and signatures: their first chunk identifies them\n        return std::memcmp(m_arr.data(), r.to_array().data(), N < 32 ? N : 32) == 0;\n')]
