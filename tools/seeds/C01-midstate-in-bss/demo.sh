#!/bin/bash
# Builds the hashing code of the current tree in a scratch directory and runs the demonstration beside this file.
set -e
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
for a in sha256_shani sha256_avx sha256_avx2 sha256_avx_one_block; do yasm -f elf64 -I./ -o "$w/$a.o" ssz/$a.asm; done
g++ -std=c++20 -O2 -I. -Iinclude -include cstdint -include array -o "$w/demo" "$here/demo.cpp" ssz/hasher.cpp "$w"/*.o -lpthread -Wl,-z,noexecstack
timeout 200 "$w/demo"
