PROPERTY = 'C04'
NEEDS = 'a list whose first offset is not a multiple of four'
BREAKS = 'the table of offsets of a list may end in a partial entry, whose bytes are skipped'
EDITS = [('common/containers.hpp', '        while (it != start + first_offset) {\n            if (std::distance(start, it) + constants::BYTES_PER_LENGTH_OFFSET > first_offset) return false;\n', '        const auto table_end = start + (first_offset & ~(constants::BYTES_PER_LENGTH_OFFSET - 1));\n        while (it < table_end) {\n')]
