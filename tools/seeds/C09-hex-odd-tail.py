PROPERTY = 'C09'
NEEDS = 'text in which a byte string has one hexadecimal digit too many'
BREAKS = 'the length check of a byte string lets one more digit pass, which is written past the end of the array'
EDITS = [('common/bytes.hpp', 'if (str.size() > 2 * N + 2) throw', 'if (str.size() / 2 > N + 1) throw')]
