PROPERTY = 'C12'
NEEDS = 'a list of fixed-size elements refused for its limit, many times'
BREAKS = 'what was refused for exceeding a limit is noted in a list nobody empties'
EDITS = [('common/containers.hpp', '        m_arr.clear();\n        if (std::distance(it, end) % T::ssz_size) return false;', '        m_arr.clear();\n        static std::vector<BytesVector> refused;  // for the peer scores\n        if (limit_ && std::distance(it, end) > limit_ * T::ssz_size) refused.emplace_back(it, end);\n        if (std::distance(it, end) % T::ssz_size) return false;')]
