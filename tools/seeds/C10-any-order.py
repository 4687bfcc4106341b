PROPERTY = 'C10'
NEEDS = 'two lists with the same elements in another order'
BREAKS = 'lists are compared without regard to the order of their elements'
EDITS = [('common/containers.hpp', '    bool operator==(const ListVariableSizedParts &) const = default;\n', '    bool operator==(const ListVariableSizedParts &r) const {\n        return limit_ == r.limit_ && std::is_permutation(m_arr.begin(), m_arr.end(), r.m_arr.begin(), r.m_arr.end());\n    }\n')]
OWN_LINES = True
