#!/bin/bash
# check.sh PROP [quick|thorough]: rebuild from /repo's working tree, run the monitors, exit 0 held / 1 violation / 2 no answer.
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
here=$(cd "$(dirname "$0")/.." && pwd)
ev=$here/evidence/$prop.json
rd=$here/evidence/replay
mkdir -p "$rd" "$here/build"
rm -f "$ev"
export CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
case $prop in
I*) exec bash "$here/bin/check_ida.sh" "$prop" "$tier" ;;
esac

build() { # native build, quiet unless it fails
    if ! cargo build --offline --manifest-path "$here/core/Cargo.toml" --target-dir "$here/build/core" >"$here/build/core.log" 2>&1; then
        grep -E "^error|-->" "$here/build/core.log" | head -20
        echo "NO ANSWER: the harness does not build against /repo"
        return 1
    fi
}
limit=400
[ "$tier" = thorough ] && limit=7200
run() {
    timeout -k 5 $limit "$here/build/core/debug/vcore" "$prop" --tier "$tier" --seed "$seed" --evidence "$ev" --replay-dir "$rd" ${VERIF_CASE:+--case $VERIF_CASE} "$@"
}
verdict() { # $1 exit code of a monitor run
    case $1 in
    0 | 1 | 2) return "$1" ;;
    124 | 137)
        if [ "$prop" = C10 ]; then
            echo "the workload did not finish within $limit s: a solve does not return" | tee "$rd/$prop-hang.txt"
            echo "VIOLATION property=$prop replay=$rd/$prop-hang.txt"
            return 1
        fi
        echo "NO ANSWER: time limit"
        return 2
        ;;
    *)
        echo "monitor ended with code $1"
        if [ "$prop" = C05 ]; then
            echo "process died with code $1 (seed $seed)" >"$rd/$prop-crash.txt"
            echo "VIOLATION property=$prop replay=$rd/$prop-crash.txt"
            return 1
        fi
        return 2
        ;;
    esac
}

if [ "$prop" != C05 ] || [ -n "$VERIF_CASE" ]; then
    build || exit 2
    run
    verdict $?
    exit $?
fi

# ---- C05: native with debug assertions, AddressSanitizer, Miri
nproc_miri=6
mcases=90
[ "$tier" = thorough ] && mcases=1500
build || exit 2
run >"$here/build/native.log"
verdict $? >>"$here/build/native.log"
rc=$?
if [ $rc != 0 ]; then
    cat "$here/build/native.log"
    exit $rc
fi
if ! RUSTFLAGS="-Zsanitizer=address" cargo +nightly build --offline --target x86_64-unknown-linux-gnu --manifest-path "$here/core/Cargo.toml" --target-dir "$here/build/asan" >"$here/build/asan-build.log" 2>&1; then
    tail -20 "$here/build/asan-build.log"
    echo "NO ANSWER: AddressSanitizer build failed"
    exit 2
fi
acases=400000
[ "$tier" = thorough ] && acases=4000000
ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=77 timeout $limit "$here/build/asan/x86_64-unknown-linux-gnu/debug/vcore" C05 --tier "$tier" --seed $((seed + 1000)) --cases $acases --replay-dir "$rd" >"$rd/C05-asan.log" 2>&1
rc=$?
if grep -q "ERROR: AddressSanitizer" "$rd/C05-asan.log"; then
    grep -m3 -E "ERROR: AddressSanitizer|#[0-9] .*(linear|nonlinear)" "$rd/C05-asan.log"
    echo "VIOLATION property=C05 replay=$rd/C05-asan.log"
    exit 1
fi
if [ $rc != 0 ]; then
    tail -5 "$rd/C05-asan.log"
    verdict $rc
    exit $?
fi
pids=()
# one build first, so that the parallel runs only execute
export MIRIFLAGS="-Zmiri-tree-borrows -Zmiri-disable-isolation"
# nalgebra's element swap is rejected by the experimental Stacked Borrows model; Tree Borrows accepts it
miri() { timeout -k 5 $limit cargo +nightly miri run --offline --manifest-path "$here/core/Cargo.toml" --target-dir "$here/build/miri" -- C05 --tier "$tier" --seed $((seed * 100 + $1)) --cases $2 --replay-dir "$rd" >"$rd/C05-miri-$1.log" 2>&1; }
miri 0 4
rc0=$?
for i in $(seq 1 $nproc_miri); do
    miri $i $mcases &
    pids+=($!)
done
rcs=($rc0)
for p in "${pids[@]}"; do
    wait "$p"
    rcs+=($?)
done
for i in $(seq 0 $nproc_miri); do
    if grep -q "Undefined Behavior" "$rd/C05-miri-$i.log"; then
        grep -m1 -A12 "Undefined Behavior" "$rd/C05-miri-$i.log"
        echo "VIOLATION property=C05 replay=$rd/C05-miri-$i.log"
        exit 1
    fi
    if [ "${rcs[$i]}" != 0 ]; then
        tail -8 "$rd/C05-miri-$i.log"
        grep -q "^VIOLATION" "$rd/C05-miri-$i.log" && exit 1
        echo "NO ANSWER: Miri run $i ended with ${rcs[$i]}"
        exit 2
    fi
done
mtot=$(cat "$rd"/C05-miri-*.log | sed -n 's/.*evaluations=\([0-9]*\).*/\1/p' | paste -sd+ | bc)
atot=$(sed -n 's/.*evaluations=\([0-9]*\).*/\1/p' "$rd/C05-asan.log")
run --extra "cases under Miri without report=${mtot:-0}" --extra "cases under AddressSanitizer without report=${atot:-0}"
verdict $?
exit $?
