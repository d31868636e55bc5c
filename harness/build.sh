#!/bin/bash
# build.sh VARIANT DRIVER...  - builds the library from $REPO (default /repo) and the drivers, out of tree.
# VARIANT: plain | asan | image (asan, files are mapped as memory blocks of their exact size)
set -e
cd "$(dirname "$0")"
REPO=${REPO:-/repo}; V=$1; shift
OUT=${VERIF_BUILD:-$(cd .. && pwd)/build}/$V; mkdir -p "$OUT"
FL="-g -O0 -std=gnu++17 -DBIN_WRITE_PLUGIN -fPIC -w -fpermissive -I$REPO/include -I$REPO/include/jsmn -I/usr/include/libxml2"
[ "$V" = image ] && FL="$FL -O1 -fsanitize=address -fno-omit-frame-pointer -DVERIF_MMAP -Dmmap=verif_mmap -Dmunmap=verif_munmap"
[ "$V" = asan ] && FL="$FL -fsanitize=address -fno-omit-frame-pointer"
make -s -j8 -f Makefile REPO="$REPO" OUT="$OUT" FL="$FL" DRV="$*"
