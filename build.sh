#!/bin/bash
# build.sh [gen|packs|mocks|all] -- builds the generator and the simulator from /repo's working
# tree into build/; with `gen`, only the generator, the crate-generating command and their
# driver; with `packs`, the simulator that has the clients in every packaging;
# with `mocks`, the simulator that has the generated mock helpers.
here=$(cd "$(dirname "$0")" && pwd)
log=$here/build/log
mkdir -p "$here/build/generated" "$log"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_BUILD_TARGET_DIR RUSTFLAGS
cargo_in() { # target-dir, directory, arguments...
    local t=$1 d=$2
    shift 2
    (cd "$here/$d" && CARGO_TARGET_DIR=$here/build/$t cargo build --offline "$@")
}
if [ "$1" = gen ]; then
    cargo_in target-gen seam >"$log/seam" 2>&1 && cargo_in target-gen gen >"$log/gen" 2>&1 && exit 0
    grep -hE '^error' -A 8 "$log/seam" "$log/gen" | head -60 >&2
    echo "the generator or its driver does not build" >&2
    exit 2
fi
if [ "$1" = all ]; then
    "$0" || exit
    "$0" packs || echo "note: the packagings do not build" >&2
    "$0" mocks || echo "note: the mock helpers do not build" >&2
    exit 0
fi
emit() {
    "$here/build/target-gen/debug/gen" emit "$here/spec" "$here/build/generated" >"$log/emit" 2>&1
}
if [ "$1" = packs ]; then
    "$0" gen && emit || exit 2
    rm -rf "$here/build/emitted" "$here/build/target/debug/packs"
    mkdir -p "$here/build/emitted"
    broken() { # Is it the packaging, or does nothing build?
        (grep -E '^error' -A 8 "$1" || tail -5 "$1") | cut -c1-300 | head -60 >&2
        rm -f "$here/build/target/debug/sim"
        cargo_in target sim >"$log/sim" 2>&1 && exit 3
        exit 2
    }
    crate() { # name, description, arguments...
        "$here/build/target-gen/debug/cargo-progenitor" progenitor -i "$here/spec/$2.json" -o "$here/build/emitted/$1" \
            -n "sa-$1" -v 0.1.0 --include-client true "${@:3}" >"$log/crate-$1" 2>&1 || { cp "$log/crate-$1" "$log/packs"; broken "$log/packs"; }
    }
    crate positional sim_positional --interface positional
    crate builder sim --interface builder --tags merged
    crate tagged sim --interface builder --tags separate
    if ! diff -rq "$here/build/emitted" "$here/build/standalone.as-emitted" >/dev/null 2>&1; then
        rm -rf "$here/build/standalone" "$here/build/standalone.as-emitted"
        cp -r "$here/build/emitted" "$here/build/standalone"
        # A name that does not resolve in the builder style is a known finding: put right here.
        for k in positional builder tagged; do
            cargo_in target packs -p sa-$k >"$log/sa-$k" 2>&1 && continue
            others=$(grep -E '^error(\[|:)' "$log/sa-$k" | grep -vE 'E0433.*`progenitor_client`|could not compile|aborting')
            if [ -z "$others" ] && grep -q 'E0433.*`progenitor_client`' "$log/sa-$k"; then
                echo "$k" >>"$here/build/standalone/unresolved"
                sed -i -E 's/(^|[^:A-Za-z_] ?)progenitor_client ?::/\1crate::progenitor_client::/g' "$here/build/standalone/$k/src/lib.rs"
            fi
        done
        cp -r "$here/build/emitted" "$here/build/standalone.as-emitted"
    fi
    cargo_in target packs >"$log/packs" 2>&1 && exit 0
    broken "$log/packs"
fi
if [ "$1" = mocks ]; then
    # Where the generator of this tree gives nothing usable, the committed output, as below.
    if ! { cargo_in target-gen seam >"$log/seam" 2>&1; cargo_in target-gen gen >"$log/gen" 2>&1; } || ! emit; then
        echo "note: no usable output from this tree's generator ($log); using the snapshot" >&2
        cp "$here"/sim/snapshot/*.rs "$here/build/generated/"
    fi
    rm -f "$here/build/target/debug/mocks"
    cargo_in target mocks >"$log/mocks" 2>&1 && exit 0
    (grep -E '^error' -A 8 "$log/mocks" || tail -5 "$log/mocks") | cut -c1-300 | head -60 >&2
    rm -f "$here/build/target/debug/sim"
    cargo_in target sim >"$log/sim" 2>&1 && exit 3
    exit 2
fi
# The simulator's dependencies and the generator at the same time.
cargo_in target sim --lib >"$log/deps" 2>&1 &
deps=$!
fresh=yes
cargo_in target-gen seam >"$log/seam" 2>&1 || tail -5 "$log/seam" >&2
if cargo_in target-gen gen >"$log/gen" 2>&1; then
    emit || fresh=no
else
    fresh=no
fi
if ! wait $deps; then
    tail -40 "$log/deps" >&2
    echo "the simulator's dependencies do not build" >&2
    exit 2
fi
# What the generator of this tree emits; if it emits nothing that compiles, the committed
# output of the generator, so that the support crate is checked all the same.
rm -f "$here/build/target/debug/sim"
[ $fresh = yes ] && cargo_in target sim >"$log/sim" 2>&1 && [ -x "$here/build/target/debug/sim" ] && exit 0
echo "note: no usable output from this tree's generator ($log); using the snapshot" >&2
tail -5 "$log/gen" "$log/emit" "$log/sim" 2>/dev/null >&2
cp "$here"/sim/snapshot/*.rs "$here/build/generated/"
cargo_in target sim >"$log/sim" 2>&1 && exit 0
grep -E '^error' -A 8 "$log/sim" | head -60 >&2
exit 2
