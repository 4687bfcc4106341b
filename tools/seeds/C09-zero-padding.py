PROPERTY = 'C09'
NEEDS = 'a byte string written with more digits than it has, all of them zeros at the end'
BREAKS = 'byte strings that are too long are accepted when the rest is zeros'
EDITS = [('common/bytes.hpp', '        for (int i = 2; i < str.size(); i += 2) ret_arr[i / 2 - 1] = chars_to_byte(str.substr(i, 2));', '        for (std::size_t i = 2; i < std::min(str.size(), 2 * N + 2); i += 2) ret_arr[i / 2 - 1] = chars_to_byte(str.substr(i, 2));'), ('common/bytes.hpp', '        if (str.size() > 2 * N + 2) throw', "        if (str.size() > 2 * N + 2 && str.find_first_not_of('0', 2 * N + 2) != str.npos) throw")]
