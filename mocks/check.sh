#!/bin/bash
# mocks/check.sh SEED TIER -- C22: the generated mock helpers against the client's requests.
here=$(cd "$(dirname "$0")/.." && pwd)
seed=$1
tier=$2
"$here/build.sh" mocks
case $? in
    0) ;;
    3)
        what="the mock helpers do not build, although the clients do (./build.sh mocks builds them again)"
        replay=$here/build/log/mocks
        printf '{"property": "C22", "tier": "%s", "seed": %s, "level": "exploration", "wall_s": 0, "verdict": "violated", "violations": 1,
 "violation_details": [{"rule": "unbuildable", "message": "%s", "replay": "%s"}],
 "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "no run: the mock helpers do not build", "samples": ["%s"]},
 "simulation": {"runs": 0}, "assumptions": []}\n' "$tier" "$seed" "$what" "$replay" "$what" >"$here/evidence/C22.json"
        echo "  unbuildable: $what"
        echo "VIOLATION property=C22 replay=$replay"
        exit 1
        ;;
    *) exit 2 ;;
esac
runs=8000
wall=240
if [ "$tier" = thorough ]; then
    runs=$((runs * 40))
    wall=1500
fi
exec "$here/build/target/debug/mocks" check C22 --seed "$seed" --runs "$runs" --wall "$wall" \
    --workers "$(nproc)" --tier "$tier" --root "$here"
