PROPERTY = 'C11'
NEEDS = 'an indexed attestation of more than 64 indices whose only disorder lies between the last index of a group of 64 and the first of the next'
BREAKS = 'indices are checked in groups of 64, the seams between the groups are not'
EDITS = [('beacon-chain/attestation.cpp', '        if (!std::is_sorted(attesting_indices.cbegin(), attesting_indices.cend())) return false;\n        const auto dup = std::adjacent_find(attesting_indices.cbegin(), attesting_indices.cend());\n        return (dup == attesting_indices.cend());', '        constexpr std::size_t group = 64;\n        const std::size_t size = attesting_indices.size();\n        for (std::size_t at = 0; at < size; at += group) {\n            const auto first = attesting_indices.cbegin() + at, last = attesting_indices.cbegin() + std::min(size, at + group);\n            if (!std::is_sorted(first, last) || std::adjacent_find(first, last) != last) return false;\n        }\n        return true;')]
