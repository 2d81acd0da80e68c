#!/bin/bash
# check.sh PROPERTY [quick|thorough] -- builds from /repo's working tree, searches, reports.
# Exit 0: held on everything explored; 1 with a VIOLATION line: broken; 2: no verdict.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
mkdir -p "$here/evidence"
if [ "$prop" = C14 ] || [ "$prop" = C15 ]; then
    # The command and the generator, run under the preloaded seam.
    "$here/build.sh" gen || exit 2
    runs=500
    [ "$prop" = C14 ] && runs=1200
    wall=200
    if [ "$tier" = thorough ]; then
        runs=$((runs * 60))
        wall=1500
    fi
    exec "$here/build/target-gen/debug/disk" check "$prop" --seed "$seed" --runs "$runs" --wall "$wall" \
        --workers "$(nproc)" --tier "$tier" --root "$here"
fi
if [ "$prop" = C17 ]; then
    exec "$here/packs/check.sh" "$seed" "$tier"
fi
if [ "$prop" = C22 ]; then
    exec "$here/mocks/check.sh" "$seed" "$tier"
fi
"$here/build.sh" || exit 2
case $prop in
    # property: runs of the quick tier, chosen for about 25 s of search on eight cores
    C01|C03) runs=25000 ;;
    C02) runs=40000 ;;
    C11) runs=13000 ;;
    *) runs=25000 ;;
esac
wall=240
if [ "$tier" = thorough ]; then
    runs=$((runs * 40))
    wall=1500
fi
exec "$here/build/target/debug/sim" check "$prop" --seed "$seed" --runs "$runs" --wall "$wall" \
    --workers "$(nproc)" --tier "$tier" --root "$here"
