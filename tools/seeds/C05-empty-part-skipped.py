PROPERTY = 'C05'
NEEDS = 'an object that held a non-empty variable part receives a message in which that part is empty and not the last one'
BREAKS = 'an empty variable part is not decoded, so the part keeps what it held before'
EDITS = [('ssz/ssz_container.cpp', 'if (!last_variable_part->deserialize(begin + last_offset, begin + current_offset)) return false;', 'if (current_offset != last_offset && !last_variable_part->deserialize(begin + last_offset, begin + current_offset)) return false;')]
