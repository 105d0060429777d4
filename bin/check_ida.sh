#!/bin/bash
# check_ida.sh PROP [quick|thorough]: the integrator in /repo's src/. Called by check.sh.
prop=$1
tier=${2:-quick}
seed=${VERIF_SEED:-1}
here=$(cd "$(dirname "$0")/.." && pwd)
ev=$here/evidence/$prop.json
rd=$here/evidence/replay
mkdir -p "$rd" "$here/build/ida"
rm -f "$ev"
export CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET

exec 9>"$here/build/ida/lock"
flock 9
bash "$here/ida/prep.sh" "$here/build/ida/crate" || exit 2
build() { cargo build --offline --manifest-path "$here/ida/harness/Cargo.toml" --target-dir "$here/build/ida/target" "$@" >"$here/build/ida/build.log" 2>&1; }
hooks=yes
if ! build --features hooks; then
    cp "$here/build/ida/build.log" "$here/build/ida/build-hooks.log"
    hooks=no
    if ! build; then
        grep -E "^error|-->" "$here/build/ida/build.log" | head -20
        echo "NO ANSWER: the integrator does not build with the harness"
        exit 2
    fi
    echo "private state cannot be read in this tree; judging from outside only"
fi
# run a private copy, so that a later build does not disturb it
bin=$here/build/ida/vida-$prop.$$
cp "$here/build/ida/target/debug/vida" "$bin"
flock -u 9
limit=600
[ "$tier" = thorough ] && limit=10800
timeout -k 5 $limit "$bin" "$prop" --tier "$tier" --seed "$seed" --evidence "$ev" --replay-dir "$rd" ${VERIF_CASE:+--case $VERIF_CASE}
rc=$?
rm -f -- "$bin"
case $rc in
0 | 1 | 2) exit $rc ;;
124 | 137)
    if [ "$prop" = I12 ]; then
        echo "the workload did not finish within $limit s: a call does not return" | tee "$rd/$prop-hang.txt"
        echo "VIOLATION property=$prop replay=$rd/$prop-hang.txt"
        exit 1
    fi
    echo "NO ANSWER: time limit"
    exit 2
    ;;
*)
    echo "NO ANSWER: monitor ended with code $rc"
    exit 2
    ;;
esac
