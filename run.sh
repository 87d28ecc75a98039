#!/bin/bash
# run.sh PROPERTY [-only SPACE:INDEX]
# Builds the harness against /repo's current working tree and decides the
# property. Exit 0: held on everything explored; exit 1 and a VIOLATION line:
# broken; anything else: the check itself could not be carried out.
cd "$(dirname "$0")" || exit 3
. ./env.sh
prop=$1
W=$(mktemp -d /tmp/verif.XXXXXX) || exit 3
trap '/bin/rm -rf "$W"' EXIT
export VERIF_DIR=$PWD VERIF_TMP=$W VERIF_REPO=/repo
(cd harness && go build -o "$W/mc" .) || exit 3
[ -x "./prepare-$prop.sh" ] && { "./prepare-$prop.sh" || exit 3; }
MC=${VERIF_MC:-$W/mc}
[ -x "$W/mc-$prop" ] && MC=$W/mc-$prop
lim=27000000
[ "$VERIF_TIER" = thorough ] && lim=31000000
(ulimit -v $lim; exec "$MC" -prop "$@") 2>"$W/stderr"
rc=$?
cat "$W/stderr" >&2
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
	# A fatal error of the Go runtime raised by the code under test (stack
	# exhaustion, concurrent map access) cannot be caught in-process.
	if grep -qE '^(fatal error: (stack overflow|runtime: out of memory|runtime: cannot allocate memory|concurrent map|all goroutines are asleep|sync:)|runtime: goroutine stack exceeds|unexpected fault address|runtime: out of memory)' "$W/stderr"; then
		mkdir -p evidence/replay
		{ echo "the process died while exploring $prop:"; head -c 20000 "$W/stderr"; } >"evidence/replay/$prop.txt"
		python3 - "$prop" <<'P'
import json, os, sys
p = sys.argv[1]
json.dump({"property": p, "tier": os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") == "thorough" else "quick",
  "seed": int(os.environ.get("VERIF_SEED") or 0), "level": "model_checking", "violations": 1, "wall_s": 0,
  "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "exhaustive": False, "samples": ["fatal runtime error, see replay"]}},
  open(f"evidence/{p}.json", "w"))
P
		echo "VIOLATION property=$prop replay=$PWD/evidence/replay/$prop.txt"
		exit 1
	fi
fi
exit $rc
