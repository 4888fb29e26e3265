#!/bin/bash
# check.sh <property> <quick|thorough>: builds the property's program against /repo and runs it.
# Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Exit 2: error of the check.
P="$1"; T="${2:-quick}"
export VERIF_DIR="${VERIF_DIR:-/verif}" VERIF_TIER="$T"
. "$VERIF_DIR/tools/env.sh"
cd "$VERIF_DIR/mc" || exit 2
bin=$(echo "$P" | tr A-Z a-z)
log="$VERIF_DIR/evidence/$P.build.log"
mkdir -p "$VERIF_DIR/evidence/replays"
if [ -x "$VERIF_DIR/tools/$bin.py" ]; then exec python3 "$VERIF_DIR/tools/$bin.py" "$T"; fi
t0=$(date +%s.%N)
python3 "$VERIF_DIR/tools/mpgen.py" || exit 2
pkg=""
for d in props mp; do [ -f "$d/src/bin/$bin.rs" ] && pkg=$d; done
[ -n "$pkg" ] || { echo "no program for $P" >&2; exit 2; }
feat=""
[ "$pkg" = mp ] && [ "$T" = thorough ] && feat="--features thorough"
build() { cargo build --offline --locked -q -p $pkg --bin "$bin" $feat 2>"$log"; }
if ! build && ! build; then
  # The library compiled (cargo reached the package that uses it) but the well-typed session
  # programs of the check are rejected: a violation.  Anything else is an error of the check.
  if grep -q "could not compile \`$pkg\`" "$log" && grep -E '^error' "$log" | grep -qv 'could not compile' \
     && ! grep -qE 'internal compiler error|signal: |linking with|No space left|panicked at .?compiler' "$log"; then
    rep="$VERIF_DIR/evidence/replays/$P.json"
    python3 - "$log" "$rep" "$P" "$T" "$t0" "$VERIF_DIR" <<'PY'
import sys,json,time,re
log,rep,p,t,t0,vd=sys.argv[1:]
txt=open(log).read()
errs=re.findall(r'^(error(?:\[E\d+\])?: .*\n(?:.*\n)?)',txt,re.M)
json.dump(dict(property=p,message="protocol programs that follow the library's documented types are no longer accepted by the compiler",errors=txt[-20000:],how_to_replay="tools/check.sh %s %s"%(p,t)),open(rep,"w"),indent=1)
json.dump(dict(property=p,tier=t,seed=1,level="model_checking",coverage=dict(states=0,transitions=0,traces_validated_against_impl=0,samples=[e for e in errs[:5]],rule="compilation of the scenario programs failed"),wall_s=time.time()-float(t0),violations=1),open("%s/evidence/%s.json"%(vd,p),"w"),indent=1)
sys.stderr.write("scenario programs do not compile:\n"+"".join(errs[:5]))
PY
    echo "VIOLATION property=$P replay=$rep"
    exit 1
  fi
  tail -40 "$log" >&2
  echo "build error" >&2
  exit 2
fi
exec "$CARGO_TARGET_DIR/debug/$bin" run --tier "$T"
