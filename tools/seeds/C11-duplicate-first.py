PROPERTY = 'C11'
NEEDS = 'a list of at least two indices whose duplicate is at the very end'
BREAKS = 'the search for repeated indices stops one short'
EDITS = [('beacon-chain/attestation.cpp', 'const auto dup = std::adjacent_find(attesting_indices.cbegin(), attesting_indices.cend());\n        return (dup == attesting_indices.cend());', 'const auto last = attesting_indices.cend() - 1;\n        return std::adjacent_find(attesting_indices.cbegin(), last) == last;')]
