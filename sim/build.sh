#!/bin/bash
# build.sh DIR [fo|ho] : instrumented build of /repo's working tree, linked with the simulator.
# Result: DIR/bin/<program>, DIR/bin/esim_run
set -e
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C
unset CFLAGS LDFLAGS CC MAKEFLAGS MAKELEVEL
D=$1; V=${2:-fo}; REPO=${ESIM_REPO:-/repo}; HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$D"
exec 9>"$D/.lock"; flock 9
STAMP=$( (cd "$REPO" && find . -path ./_build -prune -o -path ./.git -prune -o -path ./DOC -prune -o -path ./EXAMPLE_PROBLEMS -prune -o -path ./PYTHON -prune -o -path ./development_tools -prune -o -path ./etc -prune -o -type f -print0 | sort -z | xargs -0 sha256sum; cat "$HERE"/*.[ch] "$HERE/build.sh"; echo "$V") | sha256sum | cut -d' ' -f1)
if [ -f "$D/.stamp" ] && [ "$(cat "$D/.stamp")" = "$STAMP" ]; then exit 0; fi
rm -f "$D/.stamp"
rsync -rlpc --delete --omit-dir-times --exclude=/.git --exclude=/_build --exclude=/DOC --exclude=/EXAMPLE_PROBLEMS \
  --exclude=/PYTHON --exclude=/development_tools --exclude=/etc --exclude=/include --exclude=/lib --exclude='*.o' --exclude='*.a' \
  --include='*/' --include='*.*' --include=Makefile --include=VERSION --include=configure --exclude='*' "$REPO/" "$D/src/"
gcc -O2 -g -U_FORTIFY_SOURCE -fno-builtin-malloc -Wall -c "$HERE/esim.c" -o "$D/esim.o"
cd "$D/src"
# a source file is recompiled whenever anything changed: no dependency tracking needed for a full build in seconds
find . -name '*.o' -delete; find . -name '*.a' -delete
HO=; BIN=eprover; [ "$V" = ho ] && { HO=-DENABLE_LFHO; BIN=eprover-ho; }
make -s links >/dev/null 2>&1
CODE=$(printf 'print-code:\n\t@echo $(CODE)\n' | make -s -f Makefile -f - print-code)
for d in $CODE; do [ "$d" = CONTRIB ] || : > "$d/Makefile.dependencies"; done
O="-O1 -g1 -fno-common -fno-omit-frame-pointer -U_FORTIFY_SOURCE -fno-stack-protector -no-pie -fno-pie -fsanitize-coverage=trace-pc"
# sm: the configuration in which E gives every block back to the allocator at once (an option of its Makefile.vars), so that the simulated heap sees it
[ "$V" = sm ] && O="$O -DUSE_SYSTEM_MEM"
for d in $CODE; do
  case $d in SIMPLE_APPS|EXTERNAL) continue;; esac
  make -s -j10 -C "$d" ENABLE_LFHO=$HO EPROVER_BIN=$BIN OPTFLAGS="$O" LIBS="$D/esim.o -lm" LDFLAGS="-no-pie" > "$D/make.$d.log" 2>&1 || { echo "build of $d failed" >&2; tail -30 "$D/make.$d.log" >&2; exit 3; }
done
mkdir -p "$D/bin"; rm -f "$D"/bin/*
for p in $(find PROVER -maxdepth 1 -type f -perm -u+x ! -name '*.*'); do cp "$p" "$D/bin/"; done
gcc -O2 -g -Wall "$HERE/esim_run.c" -o "$D/bin/esim_run"
for h in "$HERE"/e_*.c; do [ -f "$h" ] || continue; b=$(basename "$h" .c); gcc $O -w -I include "$h" lib/INOUT.a lib/BASICS.a "$D/esim.o" -lm -o "$D/bin/${b#e_}" 2>/dev/null || echo "harness $b not built" >&2; done
for h in "$HERE"/h_*.c; do [ -f "$h" ] || continue; b=$(basename "$h" .c); gcc -O1 -g -U_FORTIFY_SOURCE -no-pie -Wall "$h" "$D/esim.o" -o "$D/bin/${b#h_}"; done
echo "$STAMP" > "$D/.stamp"
