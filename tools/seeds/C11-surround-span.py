PROPERTY = 'C11'
NEEDS = 'votes whose epochs are 2^63 or more apart'
BREAKS = 'the surround test compares signed distances'
EDITS = [('beacon-chain/attestation.cpp', 'return (source.epoch < rhs.source.epoch && target.epoch > rhs.target.epoch);', 'const auto before = static_cast<std::int64_t>(rhs.source.epoch - source.epoch);\n        const auto after = static_cast<std::int64_t>(target.epoch - rhs.target.epoch);\n        return before > 0 && after > 0;')]
