#!/bin/bash
# usage: check.sh <PROPERTY> [quick|thorough]
# Rebuilds the harness and the crate under test from /repo's working tree, then
# runs one property's exploration on both builds of the crate: one without and one
# with debug assertions and overflow checks. The first run is always the quick one.
cd /verif/mc || exit 2
id=$1
tier=${2:-${VERIF_TIER:-quick}}
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target CARGO_TERM_COLOR=never
# Keep the allocator from returning and refetching memory all the time.
export MALLOC_TRIM_THRESHOLD_=268435456 MALLOC_TOP_PAD_=4194304
unset RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
bin=$(echo "$id" | tr 'A-Z' 'a-z')
mkdir -p /verif/evidence /verif/replays /verif/target
rm -f "/verif/evidence/$id.json"
log=/verif/target/build-$id

# Both builds at once; they use different directories.
build() {
    cargo build --profile plain --offline --bin "$bin" >"$log.plain.log" 2>&1 &
    local plain=$!
    cargo build --release --offline --bin "$bin" >"$log.log" 2>&1
    local rc=$?
    wait $plain && [ $rc = 0 ]
}

dir=/verif/target
ok=no
# Some checks can also look at objects only the verification hook can write.
if [ "$id" = C14 ]; then
    export RUSTFLAGS="--cfg pdf_writer_verif" CARGO_TARGET_DIR=/verif/target/hook
    if build; then
        ok=yes dir=/verif/target/hook
    else
        echo "note: hook not available, exploring the public interface only"
    fi
    unset RUSTFLAGS
    export CARGO_TARGET_DIR=/verif/target
fi
if [ $ok = no ] && ! build; then
    tail -40 "$log.log" "$log.plain.log"
    echo "build failed"
    exit 2
fi
# An abort (out of stack, allocation failure) inside the code under test ends the
# whole process; the explorations themselves never end that way.
aborted() {
    if [ "$1" = 134 ] || [ "$1" = 139 ]; then
        mkdir -p /verif/replays
        {
            echo "property $id"
            echo "the process was aborted by signal $(($1 - 128)) in the $2 build"
            echo "reproduce: bash /verif/check.sh $id $tier"
            tail -c 2000 "/verif/target/stderr-$id"
        } >"/verif/replays/$id.txt"
        cat "/verif/replays/$id.txt"
        echo "VIOLATION property=$id replay=/verif/replays/$id.txt"
        exit 1
    fi
}
first=$("$dir/plain/$bin" quick 2>"/verif/target/stderr-$id")
rc=$?
cat "/verif/target/stderr-$id" >&2
aborted $rc plain
if [ $rc != 0 ]; then
    echo "in the build without debug assertions and overflow checks (most checks: during unwinding):"
    echo "$first"
    exit $rc
fi
export MC_FIRST=$(echo "$first" | grep "held on everything" | tail -1)
"$dir/release/$bin" "$tier" 2>"/verif/target/stderr-$id"
rc=$?
cat "/verif/target/stderr-$id" >&2
aborted $rc release
exit $rc
