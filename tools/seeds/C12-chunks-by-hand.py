PROPERTY = 'C12'
NEEDS = 'hashing a container one of whose parts throws (list past its limit, failed allocation)'
BREAKS = 'the chunks of the parts are collected in an array that is not given back when a part throws'
EDITS = [('ssz/ssz_container.cpp', '    std::vector<Chunk> chunks;\n    chunks.reserve(parts.size());\n    std::transform(\n        parts.begin(), parts.end(), std::back_inserter(chunks),\n        [](const Container *part) -> auto { return part->hash_tree_root(); });\n\n    HashTree hash_tree{chunks};\n', '    auto *const roots = new Chunk[parts.size()];\n    std::transform(\n        parts.begin(), parts.end(), roots,\n        [](const Container *part) -> auto { return part->hash_tree_root(); });\n    const std::vector<Chunk> chunks(roots, roots + parts.size());\n    delete[] roots;\n\n    HashTree hash_tree{chunks};\n')]
