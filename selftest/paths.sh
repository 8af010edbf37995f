#!/bin/bash
# compares the path model of rt/shadow/fs/sxpath.h with the library's std::filesystem::path on all short paths
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
clang++ -include cstdint -include vector -std=c++20 -O1 -I"$D" -o "$T/t" "$D/paths.cpp" && "$T/t"
