PROPERTY = 'C04'
NEEDS = 'an offset inside a message that points back before the one in front of it but not into the fixed part'
BREAKS = 'the comparison of an offset with the one before it is made against the start of the variable part only'
EDITS = [('ssz/ssz_container.cpp', '                if (current_offset < last_offset) return false;\n', '                if (current_offset < fixed_length) return false;\n')]
