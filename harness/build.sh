#!/bin/bash
# build.sh OUTDIR [asan]: compiles the drivers against the working tree of /repo
set -e
OUT=$1; MODE=$2; HERE=$(cd "$(dirname "$0")" && pwd); REPO=${REPO:-/repo}
mkdir -p "$OUT"
INC=$REPO/include
CF="-g -march=native -pthread -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memcmp -fPIC -D__x86_64__ -DNDEBUG -w"
SAN=""; OPT="-O2"
if [ "$MODE" = asan ]; then SAN="-fsanitize=address -fno-omit-frame-pointer"; DEF="-DLIFE"; LNK="-Wl,--wrap=mmap,--wrap=munmap"; OPT="-O1"; fi
pids=()
for f in kv lib wh wh_int; do gcc-11 $CF $OPT $SAN -I"$INC" -c "$INC/wormhole/$f.c" -o "$OUT/$f.o" & pids+=($!); done
for d in ${DRIVERS:-filter_drv}; do
  g++-11 -std=c++17 $OPT -g -march=native -DNDEBUG -w $SAN $DEF -I"$INC" -I"$HERE" -c "$HERE/$d.cpp" -o "$OUT/$d.o" & pids+=($!)
done
for p in "${pids[@]}"; do wait $p; done
for d in ${DRIVERS:-filter_drv}; do
  g++-11 $SAN $LNK "$OUT/$d.o" "$OUT"/{kv,lib,wh,wh_int}.o -pthread -o "$OUT/$d"
done
