PROPERTY = 'C06'
NEEDS = 'memory running out while the variable part of a message is collected, and another message encoded afterwards on the same thread'
BREAKS = 'the buffer kept for the variable part is only emptied when the encoding went through'
EDITS = [('ssz/ssz_container.cpp', '    // Insert the fixed parts and the offsets\n    std::vector<std::uint8_t> ret, variable_part;\n', '    // Insert the fixed parts and the offsets. The buffer for the variable part is kept from one message to the next;\n    // the parts inside this one find none and use their own.\n    static thread_local std::vector<std::uint8_t> kept;\n    std::vector<std::uint8_t> ret, variable_part;\n    struct Lend {\n        std::vector<std::uint8_t> &mine, &kept;\n        Lend(std::vector<std::uint8_t> &m, std::vector<std::uint8_t> &k) : mine{m}, kept{k} { mine.swap(kept); }\n        ~Lend() {\n            if (kept.capacity() < mine.capacity()) kept.swap(mine);\n        }\n    } lend{variable_part, kept};\n'), ('ssz/ssz_container.cpp', '    ret.insert(ret.end(), variable_part.begin(), variable_part.end());\n    return ret;\n', '    ret.insert(ret.end(), variable_part.begin(), variable_part.end());\n    variable_part.clear();\n    return ret;\n')]
