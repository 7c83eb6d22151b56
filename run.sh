#!/bin/bash
# run.sh ID: decides one property on /repo's current tree.
# exit 0 held, 1 violated (with a VIOLATION line), 2 could not be decided.
cd "$(dirname "$0")" || exit 2
V=$PWD
id=$1
tier=${VERIF_TIER:-quick}
export VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1}
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
mkdir -p evidence/replay

# build CRATE LOG [cargo words...]
build() {
    local crate=$1 log=$2
    shift 2
    (cd "$V/$crate" && cargo "$@" --offline) >"$log" 2>&1
}
undecided() {
    echo "INCONCLUSIVE property=$id $1"
    exit 2
}
log=$(mktemp)
trap 'rm -f "$log"' EXIT

if [ "$id" = R01 ]; then
    if ! build conc "$log" build; then
        if grep -qE 'cannot be (sent|shared) between threads safely' "$log"; then
            replay=$V/evidence/replay/R01.txt
            { echo "property=R01: a public object cannot be shared between threads (compiler's words)"; grep -A12 -E 'cannot be (sent|shared) between threads safely' "$log"; } >"$replay"
            printf '{"property": "R01", "tier": "%s", "seed": %s, "level": "exploration", "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the static demand that public objects are Send and Sync", "samples": []}, "wall_s": 0, "violations": 1}\n' "$tier" "$VERIF_SEED" >evidence/R01.json
            head -8 "$replay"
            echo "VIOLATION property=R01 replay=$replay"
            exit 1
        fi
        tail -40 "$log"
        undecided "the monitor does not build against this tree"
    fi
    target=x86_64-unknown-linux-gnu
    if (export RUSTFLAGS=-Zsanitizer=thread; build conc "$log" +nightly build -Zbuild-std --target $target --target-dir target/tsan); then
        export CONC_TSAN=$V/conc/target/tsan/$target/debug/conc
    else
        tail -5 "$log"
        echo "note: no thread-sanitizer build"
    fi
    if gcc -O1 -shared -fPIC -o conc/target/disturb.so conc/disturb.c -ldl 2>>"$log"; then
        export CONC_DISTURB=$V/conc/target/disturb.so
    else
        echo "note: no clock and environment interposer"
    fi
    [ "$tier" = thorough ] && export CONC_MIRI=1
    conc/target/debug/conc run R01
    exit
fi

# R03: a lean workload under tools which judge each access to memory.  One line
# per tool in harness/target/memory/list: tool, ok / bad / none, log.
T=x86_64-unknown-linux-gnu
judge() { # judge TOOL COMMAND...
    local tool=$1 log=harness/target/memory/$1.log rc
    shift
    timeout 200 "$@" >"$log" 2>&1
    rc=$?
    if grep -qE 'ERROR: AddressSanitizer|WARNING: MemorySanitizer|Undefined Behavior|^panic:' "$log"; then
        printf '%s\tbad\t%s\n' "$tool" "$V/$log"
    elif [ $rc = 0 ]; then
        printf '%s\tok\t%s\n' "$tool" "$V/$log"
    elif [ $rc = 134 ] || [ $rc = 139 ] || [ $rc = 135 ]; then
        echo "panic: died with status $rc" >>"$log"
        printf '%s\tbad\t%s\n' "$tool" "$V/$log"
    else
        printf '%s\tnone\t%s\n' "$tool" "$V/$log"
    fi
}
sanitized() { # sanitized TOOL FLAG REPORT CANARY cargo-words...
    local tool=$1 flag=$2 report=$3 canary=$4 bin=harness/target/$2/$T/debug/harness
    shift 4
    (cd harness && RUSTFLAGS=-Zsanitizer=$flag timeout 300 cargo +nightly build --offline --target $T --target-dir target/$flag "$@") >harness/target/memory/$flag.build 2>&1 &&
        $bin canary "$canary" 2>&1 | grep -q "$report" || { printf '%s\tnone\t\n' "$tool"; return; }
    HARNESS_SECONDS=$seconds judge "$tool" $bin memory
}
interpreted() { # interpreted K
    local k=$1 miri="cargo +nightly miri run --offline --target-dir target/miri --"
    export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed=$k"
    HARNESS_SECONDS=$((seconds * 4)) VERIF_SEED=$((VERIF_SEED + k)) judge "the interpreter $k" bash -c "cd harness && exec $miri memory"
}
memory_tools() {
    local seconds=15 k
    [ "$tier" = thorough ] && seconds=60
    export ASAN_OPTIONS=abort_on_error=1:detect_leaks=0
    mkdir -p harness/target/memory
    sanitized "the address sanitizer" address 'ERROR: AddressSanitizer' past &
    sanitized "the memory sanitizer" memory 'WARNING: MemorySanitizer' uninit -Zbuild-std &
    (
        export MIRIFLAGS=-Zmiri-disable-isolation
        cd harness && timeout 300 cargo +nightly miri run --offline --target-dir target/miri -- canary uninit 2>&1 | grep -q 'Undefined Behavior'
    ) && { for k in 1 2 3; do interpreted $k & done; wait; } || printf 'the interpreter\tnone\t\n'
    wait
}
if [ "$id" = R03 ]; then
    mkdir -p harness/target/memory
    memory_tools >harness/target/memory/list 2>/dev/null &
    tools=$!
    export HARNESS_MEMORY=$V/harness/target/memory/list
fi

crate=harness
[ "$id" = M09 ] && crate=number
if ! build $crate "$log" build; then
    tail -40 "$log"
    undecided "the monitor does not build against this tree"
fi
[ "$id" = R03 ] && wait $tools
watch=
if [ "$id" = R04 ]; then
    # every path written while questions are asked is noted
    if gcc -O1 -shared -fPIC -o harness/target/watch.so harness/watch.c -ldl 2>>"$log"; then
        watch=$V/harness/target/watch.so
    else
        echo "note: no path interposer"
    fi
fi
(ulimit -v 8000000; LD_PRELOAD=$watch exec $crate/target/debug/$crate run "$id") || exit $?
[ "$tier" = thorough ] || exit 0

# thorough: again with another seed as users' optimised builds run it, and
# under the address sanitizer
cp "evidence/$id.json" "evidence/$id.checked-build.json"
restore() { mv "evidence/$id.checked-build.json" "evidence/$id.json"; }
if build $crate "$log" build --release; then
    echo "-- optimised build, overflow checks off"
    (ulimit -v 8000000; export LD_PRELOAD=$watch; VERIF_TIER=quick VERIF_SEED=$((VERIF_SEED + 7)) exec $crate/target/release/$crate run "$id") || { rc=$?; rm -f "evidence/$id.checked-build.json"; exit $rc; }
fi
target=x86_64-unknown-linux-gnu
if (export RUSTFLAGS=-Zsanitizer=address; build $crate "$log" +nightly build --target $target --target-dir target/asan); then
    echo "-- address sanitizer"
    ASAN_OPTIONS=abort_on_error=1:detect_leaks=0 VERIF_TIER=quick VERIF_SEED=$((VERIF_SEED + 13)) $crate/target/asan/$target/debug/$crate run "$id" || { rc=$?; rm -f "evidence/$id.checked-build.json"; exit $rc; }
fi
restore
exit 0
