PROPERTY = 'C11'
NEEDS = 'an attestation two of whose indices agree in their low 32 bits'
BREAKS = 'neighbouring indices are compared in 32 bits, so an attestation with two that agree there is not counted'
EDITS = [('beacon-chain/attestation.cpp', '        const auto dup = std::adjacent_find(attesting_indices.cbegin(), attesting_indices.cend());', '        const auto dup = std::adjacent_find(attesting_indices.cbegin(), attesting_indices.cend(), [](std::uint32_t a, std::uint32_t b) { return a == b; });')]
