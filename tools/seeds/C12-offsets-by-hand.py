PROPERTY = 'C12'
NEEDS = 'a container with a variable part whose encoding fails half way (failed allocation)'
BREAKS = 'the variable parts are gathered in a buffer on the heap that an exception leaves behind'
EDITS = [('ssz/ssz_container.cpp', '    std::vector<std::uint8_t> ret, variable_part;\n', '    std::vector<std::uint8_t> ret;\n    auto &variable_part = *new std::vector<std::uint8_t>;\n'), ('ssz/ssz_container.cpp', '    ret.insert(ret.end(), variable_part.begin(), variable_part.end());\n    return ret;', '    ret.insert(ret.end(), variable_part.begin(), variable_part.end());\n    delete &variable_part;\n    return ret;')]
