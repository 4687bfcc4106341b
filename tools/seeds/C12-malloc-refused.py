PROPERTY = 'C12'
NEEDS = 'bitlist bytes without a delimiter, or over the limit'
BREAKS = 'the payload is copied before it is looked at, and the copy of a refused one is not given back'
EDITS = [('common/bitlist.cpp', '    for (auto i = it; i != last; ++i)\n        for (auto j = 0; j < constants::BITS_PER_BYTE; ++j) m_arr.push_back((*i >> j) & 1);\n', '    const std::size_t whole = last - it;\n    auto* const bytes = static_cast<std::uint8_t*>(std::malloc(whole + 1));\n    if (!bytes) throw std::bad_alloc();\n    std::copy(it, last, bytes);\n    for (auto* i = bytes; i != bytes + whole; ++i)\n        for (auto j = 0; j < constants::BITS_PER_BYTE; ++j) m_arr.push_back((*i >> j) & 1);\n    std::free(bytes);\n'), ('common/bitlist.cpp', '#include <bit>\n', '#include <algorithm>\n#include <bit>\n#include <cstdlib>\n#include <new>\n')]
