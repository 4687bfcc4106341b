PROPERTY = 'C05'
NEEDS = 'a bit list that is assigned another one of the same length'
BREAKS = 'copy assignment of a bit list skips the bits when both lists have the same length'
EDITS = [('common/bitlist.hpp', '    Bitlist(std::size_t limit = 0) : limit_{limit} {};\n', '    Bitlist(std::size_t limit = 0) : limit_{limit} {};\n    Bitlist(const Bitlist &) = default;\n    Bitlist(Bitlist &&) = default;\n    Bitlist &operator=(Bitlist &&) = default;\n    Bitlist &operator=(const Bitlist &r) {\n        limit_ = r.limit_;\n        if (m_arr.size() < r.m_arr.size()) m_arr.reserve(r.m_arr.size());\n        if (m_arr.size() != r.m_arr.size()) m_arr.assign(r.m_arr.begin(), r.m_arr.end());\n        return *this;\n    }\n')]
