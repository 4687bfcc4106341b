PROPERTY = 'C10'
NEEDS = 'two lists of fixed-size elements with the same elements in another order'
BREAKS = "lists are compared by the sum of their elements' bytes position by position inside the element"
EDITS = [('common/containers.hpp', '    bool operator==(const ListFixedSizedParts &) const = default;\n', '    bool operator==(const ListFixedSizedParts &r) const {\n        return limit_ == r.limit_ && std::is_permutation(m_arr.begin(), m_arr.end(), r.m_arr.begin(), r.m_arr.end());\n    }\n')]
OWN_LINES = True
