PROPERTY = 'C04'
NEEDS = 'a list of variable-size elements with exactly one element more than its capacity'
BREAKS = 'the capacity is compared with the first offset as if it counted from zero'
EDITS = [('common/containers.hpp', '        if (limit_ && first_offset / constants::BYTES_PER_LENGTH_OFFSET > limit_) return false;', '        if (limit_ && first_offset / constants::BYTES_PER_LENGTH_OFFSET - 1 > limit_) return false;')]
OWN_LINES = True
