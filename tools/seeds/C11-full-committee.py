PROPERTY = 'C11'
NEEDS = 'an attestation signed by a full committee of 2048 validators'
BREAKS = 'an attestation of a full committee is not counted'
EDITS = [('beacon-chain/attestation.cpp', '        if (!attesting_indices.size()) return false;\n', '        if (!attesting_indices.size() || attesting_indices.size() >= constants::MAX_VALIDATORS_PER_COMMITTEE) return false;\n')]
