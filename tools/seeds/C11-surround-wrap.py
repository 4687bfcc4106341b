PROPERTY = 'C11'
NEEDS = 'two votes whose epochs lie more than half the range apart'
BREAKS = 'epochs are compared by the sign of their difference'
EDITS = [('beacon-chain/attestation.cpp', '        return (source.epoch < rhs.source.epoch && target.epoch > rhs.target.epoch);', '        const auto before = [](std::uint64_t a, std::uint64_t b) { return std::int64_t(a - b) < 0; };\n        return (before(source.epoch, rhs.source.epoch) && before(rhs.target.epoch, target.epoch));')]
