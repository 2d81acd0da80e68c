#!/bin/bash
# packs/check.sh SEED TIER -- C17: every packaging of the clients in the same executions.
here=$(cd "$(dirname "$0")/.." && pwd)
seed=$1
tier=$2
unbuilt() { # replay file, what
    printf '{"property": "C17", "tier": "%s", "seed": %s, "level": "exploration", "wall_s": 0, "verdict": "violated", "violations": 1,
 "violation_details": [{"rule": "unbuildable", "message": "%s", "replay": "%s"}],
 "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "no run: a packaging does not build", "samples": ["%s"]},
 "simulation": {"runs": 0}, "assumptions": []}\n' "$tier" "$seed" "$2" "$1" "$2" >"$here/evidence/C17.json"
    echo "  unbuildable: $2"
    echo "VIOLATION property=C17 replay=$1"
    exit 1
}
"$here/build.sh" packs
case $? in
    0) ;;
    3) unbuilt "$here/build/log/packs" "a packaging does not build, although the build script's does (./build.sh packs builds it again)" ;;
    *) exit 2 ;;
esac
if [ -s "$here/build/standalone/unresolved" ]; then
    what=$(sed -n 's/^finding: property=C17 rule=unresolved [^|]*| //p' "$here/known-findings.txt")
    [ -n "$what" ] || unbuilt "$here/build/log/sa-builder" "progenitor_client does not resolve in a stand-alone crate"
    echo "KNOWN-FINDING: property=C17 $what ($(tr '\n' ' ' <"$here/build/standalone/unresolved"))"
fi
runs=5000
wall=240
if [ "$tier" = thorough ]; then
    runs=$((runs * 60))
    wall=1500
fi
exec "$here/build/target/debug/packs" check C17 --seed "$seed" --runs "$runs" --wall "$wall" \
    --workers "$(nproc)" --tier "$tier" --root "$here"
