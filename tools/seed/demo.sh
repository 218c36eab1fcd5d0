#!/bin/bash
# Builds demo.c against the sources in the current directory and runs it.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
gcc -std=gnu11 -g -w -fsanitize=address,undefined -fno-sanitize-recover=all -DUSH_CONFIG_PLATFORM_POSIX @EXTRA@ -I"$d" -Isrc "$d/demo.c" $(find src -name '*.c') -o "$t/demo" || exit 98
ASAN_OPTIONS=detect_leaks=0 timeout 60 "$t/demo"
