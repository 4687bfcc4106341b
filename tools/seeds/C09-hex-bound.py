PROPERTY = 'C09'
NEEDS = 'a text whose hexadecimal string is exactly one character too long'
BREAKS = 'the length check of hexadecimal strings lets one extra digit through, which is stored behind the array'
EDITS = [('common/bytes.hpp', '        if (str.size() > 2 * N + 2) throw', '        if (str.size() / 2 > N + 1) throw')]
