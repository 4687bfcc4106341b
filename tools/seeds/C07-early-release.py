PROPERTY = 'C07'
NEEDS = 'two threads that encode messages with a variable part at the same time, one of which takes the buffer between its release and its last use'
BREAKS = 'buffers of a pool are given back before their content was copied into the message'
EDITS = [('ssz/ssz_container.cpp', '    // Insert the fixed parts and the offsets\n    std::vector<std::uint8_t> ret, variable_part;\n', '    // Insert the fixed parts and the offsets. Buffers for variable parts come from a small pool.\n    static std::array<std::vector<std::uint8_t>, 4> pool;\n    static std::array<std::atomic_flag, 4> taken;\n    std::vector<std::uint8_t> ret, own;\n    std::size_t slot = 0;\n    while (slot < pool.size() && taken[slot].test_and_set()) ++slot;\n    auto &variable_part = slot < pool.size() ? pool[slot] : own;\n    struct Release {\n        std::atomic_flag *flag;\n        ~Release() {\n            if (flag) flag->clear();\n        }\n    } release{slot < pool.size() ? &taken[slot] : nullptr};\n    variable_part.clear();\n'), ('ssz/ssz_container.cpp', '    ret.insert(ret.end(), variable_part.begin(), variable_part.end());\n    return ret;\n', '    if (release.flag) std::exchange(release.flag, nullptr)->clear();\n    ret.insert(ret.end(), variable_part.begin(), variable_part.end());\n    return ret;\n'), ('ssz/ssz_container.cpp', '#include <algorithm>\n', '#include <algorithm>\n#include <array>\n#include <atomic>\n#include <utility>\n')]
