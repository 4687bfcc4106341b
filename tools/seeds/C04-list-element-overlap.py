PROPERTY = 'C04'
NEEDS = 'a list of fixed-size elements with a partial element at its end'
BREAKS = 'the number of elements is rounded down: a partial element at the end is dropped'
EDITS = [('common/containers.hpp', '        if (std::distance(it, end) % T::ssz_size) return false;\n', ''), ('common/containers.hpp', '        for (auto i = it; i != end; i += T::ssz_size) {', '        for (auto i = it; std::distance(i, end) >= std::ptrdiff_t(T::ssz_size); i += T::ssz_size) {')]
