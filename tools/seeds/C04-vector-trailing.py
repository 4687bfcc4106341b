PROPERTY = 'C04'
NEEDS = 'a vector with bytes after its last element'
BREAKS = 'a vector accepts a payload that is longer than it'
EDITS = [('common/containers.hpp', '        if (std::distance(it, end) != ssz_size) return false;\n\n        for (int i = 0; i < N; ++i)', '        if (std::distance(it, end) < ssz_size) return false;\n\n        for (int i = 0; i < N; ++i)')]
