#!/bin/bash
# run with cwd = the repository after a build
d="$(cd "$(dirname "$0")" && pwd)"; r="$PWD"; t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -DASIO_STANDALONE -DASIO_HAS_STD_CHRONO -I"$r/include" -I"$r/asio/asio/include" -I"$d" "$d/demo.cpp" "$r/_build/libcornerstone.a" -lpthread -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo
