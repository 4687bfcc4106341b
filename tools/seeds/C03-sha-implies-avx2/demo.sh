#!/bin/bash
set -e
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
g++ -std=c++20 -O1 -w -I. -Iinclude -include cstdint -include array -o "$w/demo" "$here/demo.cpp"
timeout 200 "$w/demo"
