PROPERTY = 'C01'
NEEDS = 'the SSE implementation and a batch of more than 255 blocks'
BREAKS = 'the block counter of the SSE loop is 8 bits wide: longer batches are cut'
EDITS = [('ssz/hasher.cpp', '    while (blocks) {', '    // the kernels take their batches in groups\n    auto left = static_cast<std::uint8_t>(blocks > 255 ? blocks % 256 : blocks);\n    while (left) {'), ('ssz/hasher.cpp', '        blocks--;\n', '        left--;\n')]
