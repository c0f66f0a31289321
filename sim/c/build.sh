#!/bin/bash
# build.sh OUTDIR [san]: compile the simulator around /repo's current freqcd.c
set -e
here=$(cd "$(dirname "$0")" && pwd); out=$1; san=$2; repo=${REPO:-/repo}
mkdir -p "$out"; src=$repo/src/fpfind
common="-O1 -g0 -w -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fno-builtin-malloc -I$src/lib -I$src"
sflags=""; hflags="-O2"
if [ "$san" = san ]; then sflags="-fsanitize=address,undefined -fno-sanitize-recover=all"; hflags="-O1 -DSANITIZED"; fi
( g++ -std=gnu++17 -w $hflags -c "$here/freqsim.cc" -o "$out/freqsim.o" ) & hp=$!
: > "$out/map"
for s in read write select pselect poll ppoll open openat creat close malloc calloc realloc free readv writev fcntl \
         usleep sleep nanosleep gettimeofday clock_gettime time exit _exit; do echo "$s sim_$s" >> "$out/map"; done
for s in open64 openat64 fcntl64 creat64 __read_chk __poll_chk __open64_2 __open_2; do echo "$s sim_$s" >> "$out/map"; done
for v in a b; do
    init=pattern; [ $v = b ] && init=zero
    ( gcc $common $sflags -ftrivial-auto-var-init=$init -c "$src/freqcd.c" -o "$out/f_$v.o"
      gcc $common $sflags -ftrivial-auto-var-init=$init -c "$src/lib/getopt.c" -o "$out/g_$v.o"
      ld -r "$out/f_$v.o" "$out/g_$v.o" -o "$out/s_$v.o"
      objcopy --redefine-syms="$out/map" --redefine-sym main=sut_main_$v "$out/s_$v.o"
      objcopy --keep-global-symbol=sut_main_$v "$out/s_$v.o" ) & eval p$v=$!
done
wait $hp; wait $pa; wait $pb
g++ $sflags -o "$out/freqsim" "$out/freqsim.o" "$out/s_a.o" "$out/s_b.o" -lm
