PROPERTY = 'C12'
NEEDS = 'bitlist text whose digits are fine but which is not a bitlist'
BREAKS = 'the bytes of the text are kept on the heap and given back only when they were a bitlist'
EDITS = [('common/bitlist.cpp', '    std::vector<std::uint8_t> hex;\n    for (int offset = 2; offset < str.length(); offset += 2) {\n        buffer = (helpers::hextoint(str[offset]) << 4) + helpers::hextoint(str[offset + 1]);\n        hex.push_back(buffer);\n    }\n    if (!deserialize(hex.begin(), hex.end())) throw std::invalid_argument("string is not a bitlist");', '    auto* hex = new std::vector<std::uint8_t>;\n    for (int offset = 2; offset < str.length(); offset += 2) {\n        buffer = (helpers::hextoint(str[offset]) << 4) + helpers::hextoint(str[offset + 1]);\n        hex->push_back(buffer);\n    }\n    if (!deserialize(hex->begin(), hex->end())) throw std::invalid_argument("string is not a bitlist");\n    delete hex;')]
