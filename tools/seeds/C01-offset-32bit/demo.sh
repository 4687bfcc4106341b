#!/bin/bash
# Builds the library from the current tree in a scratch directory and runs the demonstration beside this file.
set -e
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
# helpers/bytes_to_string.hpp is not part of the repository: a stand-in
mkdir "$w/helpers"
cat > "$w/helpers/bytes_to_string.hpp" <<'H'
#pragma once
#include <array>
#include <cstdint>
#include <string>
namespace helpers {
template <std::size_t N> std::string bytes_to_string(const std::array<std::uint8_t, N> &a) {
    static const char d[] = "0123456789abcdef";
    std::string r{"0x"};
    for (auto b : a) { r += d[b >> 4]; r += d[b & 15]; }
    return r;
}
}
H
for a in sha256_shani sha256_avx sha256_avx2 sha256_avx_one_block; do yasm -f elf64 -I./ -o "$w/$a.o" ssz/$a.asm; done
F="-std=c++20 -O1 -w -I$w -I. -Iinclude -include cstdint -include array -include limits -include algorithm -include stdexcept"
clang++ $F -c -o "$w/hashtree.o" ssz/hashtree.cpp &
g++ $F -c -o "$w/hasher.o" ssz/hasher.cpp &
g++ $F -c -o "$w/container.o" ssz/ssz_container.cpp &
g++ $F -c -o "$w/bitlist.o" common/bitlist.cpp &
g++ $F -c -o "$w/attestation.o" beacon-chain/attestation.cpp &
g++ $F -c -o "$w/validator.o" beacon-chain/validator.cpp &
g++ $F -c -o "$w/demo.o" "$here/demo.cpp" &
for j in $(jobs -p); do wait $j; done
g++ -o "$w/demo" "$w"/*.o -lyaml-cpp -lpthread -Wl,-z,noexecstack
timeout 200 "$w/demo"
