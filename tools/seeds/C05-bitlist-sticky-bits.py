PROPERTY = 'C05'
NEEDS = 'a bitlist object that already holds set bits receives another message'
BREAKS = 'the decoder keeps the previous content and only ever sets bits'
EDITS = [('common/bitlist.cpp', '    m_arr.clear();\n    // an encoded', '    // an encoded'), ('common/bitlist.cpp', '    for (auto i = it; i != last; ++i)\n        for (auto j = 0; j < constants::BITS_PER_BYTE; ++j) m_arr.push_back((*i >> j) & 1);\n\n    for (auto i = 0; i < constants::BITS_PER_BYTE - 1 - msb; ++i) m_arr.push_back((*last >> i) & 1);\n', '    m_arr.resize(bits);\n    for (std::size_t i = 0; i < bits; ++i)\n        if ((it[i / constants::BITS_PER_BYTE] >> (i % constants::BITS_PER_BYTE)) & 1) m_arr[i] = true;\n')]
