PROPERTY = 'C06'
NEEDS = 'an allocation that fails while a part is serialized'
BREAKS = 'the fixed part is assembled in an owning raw pointer that is lost when a part throws'
EDITS = [('ssz/ssz_container.cpp', '    std::vector<std::uint8_t> ret, variable_part;\n', '    std::vector<std::uint8_t> ret;\n    auto *variable_bytes = new std::vector<std::uint8_t>;\n    auto &variable_part = *variable_bytes;\n'), ('ssz/ssz_container.cpp', '    ret.insert(ret.end(), variable_part.begin(), variable_part.end());\n    return ret;\n', '    ret.insert(ret.end(), variable_part.begin(), variable_part.end());\n    delete variable_bytes;\n    return ret;\n')]
