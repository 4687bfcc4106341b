PROPERTY = 'C11'
NEEDS = 'an equivocation whose two votes differ only in the committee index'
BREAKS = 'the same-vote test compares what is voted for (slot, root, source, target) and not the whole vote'
EDITS = [('beacon-chain/attestation.cpp', 'if (*this != rhs && target.epoch == rhs.target.epoch) return true;', 'const bool same = slot == rhs.slot && beacon_block_root == rhs.beacon_block_root && source == rhs.source && target == rhs.target;\n        if (!same && target.epoch == rhs.target.epoch) return true;')]
