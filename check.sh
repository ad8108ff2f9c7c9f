#!/bin/bash
# check.sh <property> [quick|thorough]   build what the check needs from /repo's working tree, then explore
# check.sh --setup                       build everything
# check.sh --replay <file>               run the one case a replay file names
# Exit 0: held on everything explored; 1: violation; 2: the check could not be run.
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
tree_of() { awk -v p="$1" '$1==p{print $2}' checks.tsv; }
bin_of() { awk -v p="$1" '$1==p{print $3}' checks.tsv; }

prepare() { # tree
  local t=$1 d=$VERIF/build/$1 flags=()
  mkdir -p "$d" || return 1
  [ "$t" = asan ] && flags=(-DLL2_ASAN=ON)
  [ "$t" = conc ] && flags=(-DLL2_CONC=ON)
  # objects are kept between runs; ninja goes by time stamps, so a file whose content changed although its time
  # stamp did not advance makes all objects of the tree suspect
  python3 - "$d" <<'PY' || return 1
import hashlib, json, os, sys, subprocess
d = sys.argv[1]
cur = {}
for root in ["/repo/" + x for x in os.listdir("/repo") if x.startswith("lanelet2")]:
    for b, ds, fs in os.walk(root):
        for f in fs:
            if f.endswith((".h", ".cpp", ".hpp", ".cc", ".txt")):
                p = os.path.join(b, f)
                cur[p] = [hashlib.sha1(open(p, "rb").read()).hexdigest(), os.stat(p).st_mtime]
mf = os.path.join(d, "sources.json")
old = json.load(open(mf)) if os.path.exists(mf) else {}
stale = [p for p, v in cur.items() if p in old and old[p][0] != v[0] and v[1] <= old[p][2]]
import time
if stale:
    subprocess.call(["ninja", "-C", d, "-t", "clean"], stdout=subprocess.DEVNULL)
now = time.time()
json.dump({p: v + [now] for p, v in cur.items()}, open(mf + ".new", "w"))
PY
  if [ ! -f "$d/build.ninja" ]; then
    cmake -G Ninja -S "$VERIF/harness" -B "$d" "${flags[@]}" >"$d/configure.log" 2>&1 || { tail -20 "$d/configure.log"; return 1; }
  fi
}
build() { # tree targets...
  local t=$1 d=$VERIF/build/$1; shift
  (
    mkdir -p "$VERIF/build"; exec 9>"$VERIF/build/lock"; flock 9
    prepare "$t" || exit 1
    ninja -C "$d" "$@" >"$d/build.log" 2>&1 || { grep -E "error|FAILED" -A5 "$d/build.log" | head -60; exit 1; }
    mv "$d/sources.json.new" "$d/sources.json"
  )
}
if [ "$1" = --setup ]; then
  for t in $(awk 'NF>2{print $2}' checks.tsv | sort -u); do
    build "$t" $(awk -v t="$t" '$2==t{print $3}' checks.tsv | sort -u) || exit 2
  done
  exit 0
fi
ID=$1
if [ "$ID" = --replay ]; then ID=$(sed -n 's/^property=//p' "$2" | head -1); fi
TREE=$(tree_of "$ID"); BIN=$(bin_of "$ID")
[ -n "$BIN" ] || { echo "unknown property $ID"; exit 2; }
build "$TREE" "$BIN" || { echo "$ID: build failed"; exit 2; }
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_malloc_fill_size=65536
export MALLOC_PERTURB_=165  # what is used without being initialised shows
export LC_ALL=C
if [ "$1" = --replay ]; then exec "build/$TREE/$BIN" --verif "$VERIF" --replay "$2"; fi
"build/$TREE/$BIN" --property "$ID" --tier "${2:-quick}" --verif "$VERIF" --seed "${VERIF_SEED:-1}" --budget "${BUDGET:-$([ "$2" = thorough ] && echo 3000 || echo 700)}"
rc=$?
[ $rc -le 1 ] || rc=2
exit $rc
