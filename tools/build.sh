#!/bin/bash
# build.sh VARIANT OUTDIR : builds /repo's current working tree together with the harness
# VARIANT: asan | dbg | fast | cov     (REPO may override /repo for development)
set -u
V=$1; OUT=$2; R=${REPO:-/repo}; H=$(cd "$(dirname "$0")/.." && pwd)/harness
mkdir -p "$OUT/obj" || exit 9
# the library's default configuration switches assertions off; dbg keeps them as additional monitors
if [ $V = dbg ]; then echo '#define VT_DBG 1'; else echo '#define NDEBUG 1'; fi > "$OUT/config.h"
# table of the properties found in the harness (void pNN(u64))
{ echo '#include "vt.h"'; L=$(grep -ohE '^void p[0-9]{2}\(u64 idx\) *\{' "$H"/*.c | sed -E 's@void p([0-9]{2}).*@\1@' | sort -u)
  for i in $L; do echo "void p$i(u64);"; done
  echo 'const prop_t PROPS[] = {'; for i in $L; do echo "{\"P$i\", p$i},"; done; echo '{0, 0}};'; } > "$OUT/props.c"
SIMD="-mmmx -msse -msse2"
case $V in
asan|dbg) F="-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all"; HF="-O2 -g -fsanitize=address,undefined -fno-sanitize-recover=all -DVT_ASAN";;
fast) F="-O2 -g"; HF="-O2 -g -DVT_WRAP"; WF="-Wl,--wrap=malloc,--wrap=calloc,--wrap=free,--wrap=posix_memalign";;
cov)  F="-O0 -g --coverage"; HF="-O1 -g";;
*) exit 9;;
esac
INC="-I$OUT -I$R -I$R/src"
rm -f "$OUT"/obj/*.o "$OUT/harness"
{ for s in "$R"/src/*.c; do echo "$s $OUT/obj/r_$(basename "$s" .c).o R"; done
  for s in "$H"/*.c "$OUT/props.c"; do echo "$s $OUT/obj/h_$(basename "$s" .c).o H"; done; } |
xargs -P 10 -L 1 sh -c 's=$0; o=$1; if [ $2 = R ]; then gcc -w '"$F $SIMD $INC"' -c $s -o $o; else gcc -std=gnu11 -w '"$HF $SIMD $INC"' -I'"$H"' -c $s -o $o; fi || exit 255' || exit 2
LF=""; [ $V = asan -o $V = dbg ] && LF="-fsanitize=address,undefined"; [ $V = cov ] && LF="--coverage"
gcc $LF ${WF:-} "$OUT"/obj/*.o -o "$OUT/harness" /usr/lib/x86_64-linux-gnu/libm4ri.a -l:libpng16.so.16 -lm || exit 2
