#!/bin/bash
# Builds demo.cpp against the library sources in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
SAN="-fsanitize=address"; I="-I$D/stubs -Isrc -Isrc/xmss-alt -Isrc/qrl -Isrc/shasha"
. "$D/sources.sh"
for f in $SRC; do
  O=-O1; [ "$f" = src/qrl/wordlist.cpp ] && O=-O0
  { g++ -std=c++17 $O -w $SAN $I -x c++ -c "$f" -o "$T/$(basename $f).o" || touch "$T/bad"; } &
done
g++ -std=c++17 -O1 -w $SAN $I -c "$D/demo.cpp" -o "$T/demo.o" || touch "$T/bad"
wait; [ -e "$T/bad" ] && { echo "does not build"; exit 2; }
g++ $SAN -o "$T/demo" "$T"/*.o -lpthread || exit 2
cd "$T"; ASAN_OPTIONS=detect_leaks=0 timeout 250 "$T/demo"
