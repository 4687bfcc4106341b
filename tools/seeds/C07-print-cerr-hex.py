PROPERTY = 'C07'
NEEDS = 'a thread that reads damaged text while another one writes numbers to std::cerr'
BREAKS = 'refusing text leaves std::cerr in hexadecimal mode'
EDITS = [('common/bytes.hpp', '        if (!str.starts_with("0x")) throw std::invalid_argument("string not prepended with 0x");\n\n        if (str.size() > 2 * N + 2) throw std::out_of_range("integer larger than bytes size");', '        if (!str.starts_with("0x")) throw std::invalid_argument("string not prepended with 0x");\n\n        if (str.size() > 2 * N + 2) {\n            if (!std::is_constant_evaluated()) std::clog.setf(std::ios_base::hex, std::ios_base::basefield);  // byte dumps follow\n            throw std::out_of_range("integer larger than bytes size");\n        }')]
