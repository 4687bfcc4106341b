PROPERTY = 'C04'
NEEDS = 'a boolean byte other than 0 and 1'
BREAKS = 'any byte is accepted as a boolean, 2 to 255 meaning true'
EDITS = [('common/boolean.hpp', '        if (muint > 1) return false;\n        value_ = bool(muint);\n', '        value_ = (muint != 0);\n')]
