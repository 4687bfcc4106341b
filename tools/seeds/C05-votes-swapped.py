PROPERTY = 'C05'
NEEDS = 'reading the source or target of a received vote (encoding, root and comparison are consistent)'
BREAKS = 'the wire form of a vote stores the target before the source, consistently in encoding, decoding and root'
EDITS = [('beacon-chain/attestation.cpp', 'return hash_tree_({&slot, &index, &beacon_block_root, &source, &target});', 'return hash_tree_({&slot, &index, &beacon_block_root, &target, &source});'), ('beacon-chain/attestation.cpp', 'return serialize_({&slot, &index, &beacon_block_root, &source, &target});', 'return serialize_({&slot, &index, &beacon_block_root, &target, &source});'), ('beacon-chain/attestation.cpp', 'return deserialize_(it, end, {&slot, &index, &beacon_block_root, &source, &target});', 'return deserialize_(it, end, {&slot, &index, &beacon_block_root, &target, &source});')]
