#!/bin/bash
# builds demo.cc against the product's own objects and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); S=$(mktemp -d /tmp/demoXXXXXX); chmod 755 $S; mkdir $S/w
[ -f "$D/extra" ] && for f in $(cat "$D/extra"); do EXTRA="$EXTRA $PWD/src/$f"; done
g++ -O0 -std=c++17 -w -D_GNU_SOURCE -DPACKAGE_VERSION="\"1\"" -fno-access-control -D_FILE_OFFSET_BITS=64 -D_LARGEFILE_SOURCE -iquote "$PWD/src" -iquote "$D" -o $S/demo "$D/demo.cc" $EXTRA "$PWD/src/libcards.a" $(pkg-config --libs libarchive libcurl) -lcrypto -lssl -lzstd || { rm -rf "$S"; exit 70; }
SCRATCH=$S/w timeout 120 $S/demo; r=$?
rm -rf "$S"
exit $r
