PROPERTY = 'C07'
NEEDS = 'two threads compute roots of bitlists at the same time'
BREAKS = 'the packed bits of a bitlist under hashing lie in a static buffer shared by all threads'
EDITS = [('common/bitlist.cpp', '    std::vector<std::uint8_t> ret((m_arr.size() + BITS_PER_BYTE - 1) / BITS_PER_BYTE, 0);\n', '    static std::vector<std::uint8_t> ret(MAX_VALIDATORS_PER_COMMITTEE);  // saves an allocation per root\n    ret.assign((m_arr.size() + BITS_PER_BYTE - 1) / BITS_PER_BYTE, 0);\n')]
