#!/bin/bash
# build.sh OUTDIR  - compiles the efsw sources of ${EFSW_SRC:-/repo} and the harness, out of tree
set -e
SRC=${EFSW_SRC:-/repo}; OUT=$1; HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT"
FILES=$(find "$SRC/src/efsw" -maxdepth 1 -name '*.cpp' | grep -v -E 'Kqueue|FSEvents|Win32' ; find "$SRC/src/efsw/platform/posix" -name '*.cpp')
CXX="g++ -std=c++17 -g -O1 -fsanitize=address -fno-omit-frame-pointer -pthread -I$SRC/include -I$SRC/src -w"
{
  echo "all: $OUT/efswh"
  OBJS=""
  for f in $FILES; do
    o="$OUT/$(echo "${f#$SRC/src/}" | tr / _).o"; OBJS="$OBJS $o"
    echo "$o: $f"; printf '\t%s\n' "$CXX -c $f -o $o"
  done
  echo "$OUT/efswh.o: $HERE/efswh.cpp"; printf '\t%s\n' "$CXX -c $HERE/efswh.cpp -o $OUT/efswh.o"
  echo "$OUT/efswh: $OUT/efswh.o $OBJS"; printf '\t%s\n' "$CXX -rdynamic -o $OUT/efswh $OUT/efswh.o $OBJS -ldl"
} > "$OUT/Makefile"
make -s -B -j8 -f "$OUT/Makefile" all
