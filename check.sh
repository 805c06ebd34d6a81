#!/bin/bash
# check.sh <property> [quick|thorough]: builds the monitors against /repo's working tree and runs one property.
# exit 0: held on everything observed; 1: violation (a VIOLATION line was printed); 2: no answer (build or harness failure).
set -u
P=${1:?property}; TIER=${2:-${VERIF_TIER:-quick}}
V=$(cd "$(dirname "$0")" && pwd); H=$V/harness
export VERIF_TIER=$TIER VERIF_SEED=${VERIF_SEED:-1} CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER MIRIFLAGS
HOST=x86_64-unknown-linux-gnu
AUX=$V/evidence/.aux; mkdir -p "$V/evidence" "$AUX"; rm -f "$V/evidence/$P.json" "$AUX/$P".*
[ "$P" != setup ] && rm -rf "$V/replays/$P"
cd "$H" || exit 2

die() { echo "check.sh: $*" >&2; exit 2; }
# build <flavour>: always recompiles the crate under test, whatever its timestamps say
build() {
  local log=$AUX/$P.$1.build; local c=()
  case $1 in
    checked)   c=(env RUSTC_WRAPPER="$H/rustc-wrapper.sh" cargo build --offline --target-dir target/main) ;;
    unchecked) c=(env RUSTC_WRAPPER="$H/rustc-wrapper.sh" cargo build --release --offline --target-dir target/main) ;;
    asan)      c=(env RUSTFLAGS=-Zsanitizer=address cargo +nightly build --release --offline --target $HOST --target-dir target/asan) ;;
    msan)      c=(env RUSTFLAGS="-Zsanitizer=memory -Zsanitizer-memory-track-origins" cargo +nightly build --release --offline -Zbuild-std --target $HOST --target-dir target/msan) ;;
    tsan)      c=(env RUSTFLAGS=-Zsanitizer=thread cargo +nightly build --release --offline -Zbuild-std --target $HOST --target-dir target/tsan) ;;
  esac
  local prof=(); [ "$1" != checked ] && prof=(--release)
  local tgt=(--target-dir target/main); case $1 in asan|tsan|msan) tgt=(--target $HOST --target-dir target/$1) ;; esac
  cargo clean --offline -q -p nmea-parser -p vp-monitor "${prof[@]}" "${tgt[@]}" 2>/dev/null
  "${c[@]}" >"$log" 2>&1 || { tail -40 "$log" >&2; die "building the $1 monitors failed"; }
  rm -f "$log"
}
bin() { case $1 in checked) echo target/main/debug/vp-monitor ;; unchecked) echo target/main/release/vp-monitor ;; *) echo target/$1/$HOST/release/vp-monitor ;; esac; }

# Quick runs are scaled to some ten seconds of observation; thorough runs have sizes of their own.
SC=1
if [ "$TIER" != thorough ]; then
  case $P in C02|C19) SC=25 ;; C12|C20) SC=20 ;; C21) SC=15 ;; C08|C17) SC=8 ;; C13|C23) SC=6 ;; C03|C06|C14|C16|C25|C26) SC=5 ;; C01|C04|C09|C11|C15|C24) SC=4 ;; C05|C07) SC=3 ;; C10) SC=2 ;; esac
fi
BAD=0
# judge <rc> <what> <log>: a run that was ended by a crash, a sanitizer or the interpreter is a violation
judge() {
  case $1 in
    0) ;;
    1) BAD=1 ;;
    66|132|134|135|136|139)
       mkdir -p "$V/replays/$P"; local r=$V/replays/$P/$2.log; cp "$3" "$r"
       grep -aE 'ERROR: |WARNING: Thread|Undefined Behavior|panicked|precondition|overflowed|SUMMARY' "$3" | head -12
       echo "  the $2 run of the monitored parser was ended ($1); its log is the replay"
       echo "VIOLATION property=$P replay=$r"; BAD=1 ;;
    124) case $P in C01|C23|C26) mkdir -p "$V/replays/$P"; cp "$3" "$V/replays/$P/$2.log"
       echo "  the $2 run did not finish"; echo "VIOLATION property=$P replay=$V/replays/$P/$2.log"; BAD=1 ;; *) die "$2 run of $P timed out" ;; esac ;;
    *) tail -20 "$3" >&2; die "$2 run of $P ended with $1" ;;
  esac
}
LIMIT=500; [ "$TIER" = thorough ] && LIMIT=7200
# run <flavour> <args...>: stdout is shown, stderr (sanitizer reports) goes to the log
run() {
  local f=$1; shift
  local log=$AUX/$P.$f.log
  ASAN_OPTIONS=exitcode=66:detect_leaks=1:abort_on_error=0 LSAN_OPTIONS=exitcode=66 TSAN_OPTIONS=exitcode=66:halt_on_error=1 MSAN_OPTIONS=exitcode=66 \
    timeout -k 10 $LIMIT "$(bin "$f")" --prop "$P" --dir "$V" --scale $SC "$@" >"$log.out" 2>"$log"
  local rc=$?
  cat "$log.out"; cat "$log.out" >>"$log"
  judge $rc "$f" "$log"
}
# Evidence of a run that crashed before it could write its own.
last_evidence() {
  [ -s "$V/evidence/$P.json" ] || printf '{"property":"%s","tier":"%s","seed":%s,"level":"exploration","coverage":{"evaluations":0,"distinct_nontrivial":0,"rule":"the run was ended by a crash before it could report","samples":[]},"wall_s":%s,"violations":1}\n' "$P" "$TIER" "$VERIF_SEED" "$SECONDS" >"$V/evidence/$P.json"
}
# Several interpreted runs side by side, each with workloads of its own.
small_miri() {
  local k n=4 pids=()
  [ "$TIER" = thorough ] && n=8
  cargo clean --offline -q -p nmea-parser -p vp-monitor --target $HOST --target-dir target/miri 2>/dev/null
  export XDG_CACHE_HOME=$H/target/miri-cache MIRIFLAGS="-Zmiri-disable-isolation"
  # the first run builds what the others use; all of them wait for it
  for k in $(seq 1 $n); do
    ( VERIF_SEED=$((VERIF_SEED * 100 + k)) timeout -k 10 $LIMIT cargo +nightly miri run --offline -q --target-dir target/miri -- \
        --prop C24 --small --dir "$V" --threads 1 --aux-out "$AUX/$P.miri$k.json" >"$AUX/$P.miri$k.log.out" 2>"$AUX/$P.miri$k.log" ) &
    pids+=($!)
  done
  for k in $(seq 1 $n); do
    wait "${pids[$((k - 1))]}"; local rc=$? log=$AUX/$P.miri$k.log
    cat "$log.out"; cat "$log.out" >>"$log"
    if [ $rc -ne 0 ] && grep -aqE 'Undefined Behavior|memory leaked|unsafe precondition|SIGABRT|abnormal termination' "$log"; then rc=66; fi
    [ $rc -eq 1 ] && [ ! -s "$AUX/$P.miri$k.json" ] && rc=3
    judge $rc miri$k "$log"
  done
  unset XDG_CACHE_HOME MIRIFLAGS
}

case $P in
  setup)
    build checked; build unchecked; build asan; build tsan; build msan
    XDG_CACHE_HOME=$H/target/miri-cache cargo +nightly miri setup -q >"$AUX/miri-setup.log" 2>&1 || { cat "$AUX/miri-setup.log" >&2; exit 2; }
    exit 0 ;;
  C01)
    build checked; run checked --aux-out "$AUX/C01.checked.json"
    build unchecked; run unchecked --aux-in checked_build="$AUX/C01.checked.json" ;;
  C23)
    build tsan; run tsan --scale $( [ "$TIER" = thorough ] && echo 0.05 || echo 0.3 ) --aux-out "$AUX/C23.tsan.json"
    build checked; run checked --aux-in thread_sanitizer="$AUX/C23.tsan.json" ;;
  C24)
    small_miri
    build checked; run checked --aux-out "$AUX/C24.checked.json"
    build msan; run msan --aux-out "$AUX/C24.msan.json"
    build tsan; run tsan --scale $( [ "$TIER" = thorough ] && echo 0.1 || echo 0.5 ) --aux-out "$AUX/C24.tsan.json"
    M=(); for f in "$AUX"/C24.miri*.json; do f=${f##*/C24.}; M+=(--aux-in "${f%.json}=$AUX/C24.$f"); done
    build asan; run asan --aux-in checked_build="$AUX/C24.checked.json" --aux-in memory_sanitizer="$AUX/C24.msan.json" --aux-in thread_sanitizer="$AUX/C24.tsan.json" "${M[@]}" ;;
  *)
    build checked
    if [ "$TIER" = thorough ]; then
      build unchecked; run unchecked --aux-out "$AUX/$P.unchecked.json"
      run checked --aux-in unchecked_build="$AUX/$P.unchecked.json"
    else run checked; fi ;;
esac
last_evidence
[ $BAD -eq 0 ] && rm -f "$AUX/$P".*
exit $BAD
