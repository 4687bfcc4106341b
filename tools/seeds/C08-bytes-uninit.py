PROPERTY = 'C08'
NEEDS = 'a byte string created in memory that held something else'
BREAKS = 'a fresh byte string is left uninitialised when it is longer than a chunk'
EDITS = [('common/bytes.hpp', '    constexpr Bytes() : m_arr{} {};\n', '    Bytes() {\n        if constexpr (N <= 32) m_arr.fill(0);\n    }\n')]
