PROPERTY = 'C10'
NEEDS = 'two bit lists of which one continues the other with cleared bits inside its last byte'
BREAKS = 'bit lists are compared byte by byte without their lengths'
EDITS = [('common/bitlist.hpp', '    bool operator==(const Bitlist &) const = default;\n', '    bool operator==(const Bitlist &r) const {\n        auto a = m_arr, b = r.m_arr;\n        a.resize((a.size() + 7) / 8 * 8);\n        b.resize((b.size() + 7) / 8 * 8);\n        return a == b;\n    }\n')]
