PROPERTY = 'C01'
NEEDS = 'the SSE implementation and an empty batch'
BREAKS = 'the SSE loop hashes before it looks at the count'
EDITS = [('ssz/hasher.cpp', '    while (blocks) {', '    do {'), ('ssz/hasher.cpp', '        blocks--;\n    }', '    } while (--blocks);')]
