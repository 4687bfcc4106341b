PROPERTY = 'C10'
NEEDS = 'two lists of which the left one is a proper prefix of the right one'
BREAKS = 'lists of fixed-size elements are compared over the length of the left one only'
EDITS = [('common/containers.hpp', '    bool operator==(const ListFixedSizedParts &) const = default;\n', '    bool operator==(const ListFixedSizedParts &r) const {\n        return r.m_arr.size() >= m_arr.size() && std::equal(m_arr.begin(), m_arr.end(), r.m_arr.begin());\n    }\n')]
OWN_LINES = True
