#!/bin/bash
# buildconc.sh OUTDIR  - compiles the efsw sources of ${EFSW_SRC:-/repo}, preemptible at every basic
# block, and the concurrency harness, out of tree
set -e
SRC=${EFSW_SRC:-/repo}; OUT=$1; HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT"
FILES=$(find "$SRC/src/efsw" -maxdepth 1 -name '*.cpp' | grep -v -E 'Kqueue|FSEvents|Win32' ; find "$SRC/src/efsw/platform/posix" -name '*.cpp')
CXX="g++ -std=c++17 -g -O1 -fsanitize=address -fno-omit-frame-pointer -pthread -I$SRC/include -I$SRC/src -w"
{
  echo "all: $OUT/concw"
  OBJS=""
  for f in $FILES; do
    o="$OUT/$(echo "${f#$SRC/src/}" | tr / _).o"; OBJS="$OBJS $o"
    echo "$o: $f"; printf '\t%s\n' "$CXX -fsanitize-coverage=trace-pc -D_GLIBCXX_EXTERN_TEMPLATE=0 -c $f -o $o"
  done
  echo "$OUT/concw.o: $HERE/concw.cpp"; printf '\t%s\n' "$CXX -c $HERE/concw.cpp -o $OUT/concw.o"
  echo "$OUT/concw: $OUT/concw.o $OBJS"; printf '\t%s\n' "$CXX -rdynamic -o $OUT/concw $OBJS $OUT/concw.o -ldl"
} > "$OUT/Makefile"
make -s -B -j8 -f "$OUT/Makefile" all
