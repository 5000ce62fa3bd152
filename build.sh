#!/bin/bash
# Builds /repo's current working tree in a private copy and the simulator's drivers against it.
# usage: build.sh OUTDIR     (nothing is done when OUTDIR already holds a build of the same tree)
set -u
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LC_ALL=C.UTF-8 HOME=${HOME:-/root}
unset CFLAGS LDFLAGS MAKEFLAGS PL_PATH CDPATH
export CC=gcc
OUT=$1; V=$(cd "$(dirname "$0")" && pwd); R=${REPO:-/repo}
J=$(nproc); [ "$J" -gt 8 ] && J=8
mkdir -p "$OUT" && OUT=$(cd "$OUT" && pwd) || exit 2
exec 9>"$OUT/lock"; flock 9
cd "$R" || exit 2
git -c safe.directory='*' ls-files -z -co --exclude-standard >"$OUT/all0" || exit 2
python3 - "$OUT/all0" "$OUT/files0" <<'P' || exit 2
import os, sys
fs = set(open(sys.argv[1], 'rb').read().split(b'\0')) - {b''}
open(sys.argv[2], 'wb').write(b''.join(f + b'\0' for f in sorted(fs)
    if f.startswith((b'src/', b'VERSION', b'COPYING')) and os.path.isfile(f)))
P
new=$( { xargs -0 sha256sum <"$OUT/files0"; cat "$V/build.sh" "$V"/drivers/* "$V"/sim/*.c "$V"/harness/{bank,c10,c11,nd,plmodel}.py; } | sha256sum | cut -d' ' -f1)
if [ -f "$OUT/ok" ] && [ "$new" = "$(cat "$OUT/ok")" ]; then exit 0; fi
W=$OUT/work
rm -rf "$OUT/ok" "$OUT/work" "$OUT/bin" "$OUT/bank"
mkdir -p "$W" "$OUT/bin" || exit 2
rsync -a --from0 --files-from="$OUT/files0" "$R/" "$W/" || exit 2
find "$W" -type f -exec touch -h -d '2 hours ago' {} +
find "$W/src" -name '*.wam' -exec touch -d '1 hour ago' {} +
chmod a+x "$W/src/configure"
stale=()
for pl in "$W"/src/Pl2Wam/*.pl "$W"/src/BipsPl/*.pl; do
    d=${pl%/*} n=$(basename "$pl" .pl)
    if [ -f "$d/$n.wam" ]; then
        h=$(grep -m1 '^% hash:' "$d/$n.wam" | awk '{print $3}')
        [ "$h" = "$(sha1sum <"$pl" | cut -d' ' -f1)" ] || stale+=("$d/$n")
    elif [ "$n" != t ] && grep '^[A-Z_]*OBJS *=\|^ \|^PLS' "$d/Makefile.in" | grep -q "\b$n\(@OBJ_SUFFIX@\|\.pl\b\)"; then
        stale+=("$d/$n")
    fi
done
cd "$W/src" || exit 2
make_all() { timeout 120 make -C EnginePl config && timeout 120 make -C EnginePl top_comp && timeout 400 make -j"$J" all; }
regen() {
    ( . ./SETVARS; cd "$1" || exit 1
      for s in "${stale[@]}"; do
          [ "${s%/*}" = "$W/src/$1" ] || continue
          rm -f "$s.wam"
          timeout 60 make "$(basename "$s").wam" && [ -s "$s.wam" ] || exit 1
      done )
}
( set -e
  ./configure
  if [ ${#stale[@]} -eq 0 ]; then make_all
  else
      cp -p "$V/seed/pl2wam" Pl2Wam/pl2wam; touch -d '3 hours ago' Pl2Wam/pl2wam
      regen Pl2Wam; regen BipsPl
      rm -f Pl2Wam/pl2wam
      make_all
      regen BipsPl; make_all
  fi
) >"$OUT/build.log" 2>&1 </dev/null
[ $? = 0 ] || { echo "build of /repo failed, see $OUT/build.log"; tail -5 "$OUT/build.log"; exit 2; }
( set -e
  . ./SETVARS
  cd "$OUT/bin"
  gcc -O2 -g -fPIC -shared -w -fvisibility=hidden -o libsim.so "$V/sim/libsim.c" -ldl &
  gplc -c -C "-O1 -g -w" -o glue0.o "$V/drivers/glue.c"
  gplc -c -C "-O1 -g -w -I$W/src/EnginePl" -o junk.o "$V/drivers/junk.c"
  ld -r -o glue.o glue0.o junk.o
  python3 -B "$V/harness/bank.py" "$OUT/bank"        # random programs: native (linked into bank<i>) and byte-code
  ( cd "$OUT/bank"
    export GLOBALSZ=1000000
    { ls y*.pl | sed 's/^/y /'; ls n*.pl | sed 's/^/n /'; } | xargs -P"$J" -L1 sh -c '
      if [ $0 = y ]; then pl2wam -w -o ${1%.pl}.wbc $1; else gplc -c $1; fi >${1%.pl}.log 2>&1 || exit 255'
  ) &
  bank=$!
  for d in "$V"/drivers/*.pl; do
      n=$(basename "$d" .pl)
      extra=
      [ -f "$V/drivers/$n.c" ] && { gplc -c -C "-O1 -g -w" -o "$n.g.o" "$V/drivers/$n.c"; extra=$n.g.o; }
      gplc --no-top-level --no-debugger -o "$n" "$d" glue.o $extra
  done
  wait $bank
  gplc -c -o driver.o "$V/drivers/driver.pl"
  for i in 0 1 2 3 4 5 6 7; do gplc --no-top-level --no-debugger -o bank$i driver.o "$OUT/bank/n$i.o" glue.o & done
  wait
  [ -f libsim.so ] && [ -f bank7 ]
  rm -f "$OUT"/bank/*.o "$OUT"/bank/*.pl
  cp -p "$W/src/TopComp/gprolog" "$W/src/TopComp/gplc" "$W/src/Pl2Wam/pl2wam" "$W/src/Wam2Ma/wam2ma" "$W/src/Ma2Asm/ma2asm" "$W/src/Fd2C/fd2c" .
  cp "$V/drivers/samp.txt" samp.pl; cp "$W/src/BipsFD/fd_values_fd.fd" samp.fd
  pl2wam -o samp.wam samp.pl; wam2ma -o samp.ma samp.wam
) >>"$OUT/build.log" 2>&1 </dev/null
[ $? = 0 ] || { echo "build of the drivers failed, see $OUT/build.log"; tail -5 "$OUT/build.log"; exit 2; }
echo "$new" >"$OUT/ok"
