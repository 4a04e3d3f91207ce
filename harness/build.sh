#!/bin/bash
# Builds the library from /repo's working tree and the driver, in directory $1.
set -e
B=$1; H=$(cd "$(dirname "$0")" && pwd); R=${REPO:-/repo}
mkdir -p "$B/pire" "$B/o"
cp "$H/config.h" "$B/pire/config.h"
cp "$H/config.h" "$B/config.h"
bison -y -d -o "$B/pire/re_parser.cpp" "$R/pire/re_parser.y" 2>/dev/null
[ -f "$B/pire/re_parser.hpp" ] && mv "$B/pire/re_parser.hpp" "$B/pire/re_parser.h"
sed -i 's/re_parser\.hpp/re_parser.h/' "$B/pire/re_parser.cpp"
flex -o "$B/pire/inline.cpp" "$R/pire/inline.lpp"
F="-std=c++11 -w -include limits -DHAVE_CONFIG_H -DPIRE_CHECKED -I$B -I$B/pire -I$R/pire -I$R"
{
 for f in "$H"/scan_*.cpp "$H"/driver.cpp "$H"/pairs*.cpp; do echo "h_$(basename $f .cpp) $f"; done
 for f in "$R"/pire/*.cpp "$R"/pire/extra/*.cpp "$R"/pire/scanners/*.cpp "$R"/pire/stub/*.cpp "$B/pire/re_parser.cpp"; do echo "l_$(basename $f .cpp) $f"; done
 echo "i_inline $B/pire/inline.cpp"
} > "$B/units"
xargs -P 8 -L 1 sh -c 'case $1 in h_*) O=-O1;; *) O=-O2;; esac; g++ '"$F"' $O -c "$2" -o "'"$B"'/o/$1.o"' sh < "$B/units"
g++ -o "$B/driver" "$B"/o/h_*.o "$B"/o/l_*.o
g++ -o "$B/pire_inline" "$B"/o/i_inline.o "$B"/o/l_*.o
