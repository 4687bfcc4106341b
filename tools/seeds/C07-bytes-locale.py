PROPERTY = 'C07'
NEEDS = 'a thread that converts a byte string to text while other threads rely on the locale of the process'
BREAKS = 'converting a byte string to text switches the locale of the whole process to "C" for a moment'
EDITS = [('common/bytes.hpp', '        return helpers::bytes_to_string(m_arr);\n', '        // digits must not depend on the locale\n        const std::string saved = std::setlocale(LC_ALL, nullptr);\n        std::setlocale(LC_ALL, "C");\n        auto ret = helpers::bytes_to_string(m_arr);\n        std::setlocale(LC_ALL, saved.c_str());\n        return ret;\n'), ('common/bytes.hpp', '#include <bit>\n', '#include <bit>\n#include <clocale>\n')]
