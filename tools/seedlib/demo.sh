#!/bin/bash
# Builds the library from the current directory together with demo.cpp and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX") || exit 3
trap 'rm -rf "$d"' EXIT
flags="-std=c++20 -w -O1 -DNDEBUG $DEMO_FLAGS -I$repo/include -I$repo -I$here"
find "$repo/src" -name '*.cpp' > "$d/list"
echo "$here/demo.cpp" >> "$d/list"
xargs -P 8 -I{} sh -c 'g++ '"$flags"' -c "{}" -o "'"$d"'/$(echo "{}" | md5sum | cut -c1-12).o" || exit 255' < "$d/list" || exit 2
g++ $DEMO_FLAGS "$d"/*.o -o "$d/demo" -llzma -lbz2 -lpthread || exit 2
cd "$d" && timeout 200 ./demo > "$d/out" 2>&1
rc=$?
tail -5 "$d/out"
exit $rc
