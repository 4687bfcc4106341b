// Stand-in for helpers/bytes_to_string.hpp, which the repository includes but does not contain.
// It is last on the include path: a version in /repo takes precedence.
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <string>

namespace helpers {
template <std::size_t N>
std::string bytes_to_string(const std::array<std::uint8_t, N> &a) {
    static constexpr char d[] = "0123456789abcdef";
    std::string s("0x");
    s.reserve(2 + 2 * N);
    for (auto b : a) {
        s += d[b >> 4];
        s += d[b & 15];
    }
    return s;
}
}  // namespace helpers
