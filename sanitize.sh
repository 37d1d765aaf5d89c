# Stages of the thorough tier, sourced by check.sh: the same workloads under
# AddressSanitizer and ThreadSanitizer, and a small one under Miri.  Each
# stage appends what it saw to $VCMON_EXTRA for the evidence.
target=x86_64-unknown-linux-gnu

# sanitized KIND SECONDS [cargo arguments]: run the check in such a build
sanitized() {
  local kind=$1 secs=$2; shift 2
  local log=$here/target/build-$kind.log out=$here/target/$kind-$id.out code
  if ! (cd "$here/harness" && RUSTFLAGS="-Zsanitizer=$kind" cargo +nightly build \
      --offline --quiet --target $target --target-dir "$here/target/$kind" "$@") >"$log" 2>&1; then
    tail -n 20 "$log"
    echo "INCONCLUSIVE the harness does not build with -Zsanitizer=$kind"
    exit 2
  fi
  VERIF_TIER=quick VCMON_SCALE=8 VCMON_TIME=$secs VCMON_STACK=16 VCMON_EXTRA= VCMON_EVIDENCE=$here/target/$kind-$id.json \
    ASAN_OPTIONS=abort_on_error=1:detect_leaks=0 TSAN_OPTIONS=abort_on_error=1:halt_on_error=1 \
    "$here/target/$kind/$target/debug/vcmon" check "$id" >"$out" 2>&1
  code=$?
  if [ $code != 0 ]; then
    tail -n 60 "$out"
    exit $code
  fi
  echo "$kind {\"result\": \"$(tail -n 1 "$out" | tr -d '"\\')\"}" >>"$VCMON_EXTRA"
  echo "$kind: $(tail -n 1 "$out")"
}

# interpreted MODE SECONDS FAMILY: inputs of a family of C01 under Miri
interpreted() {
  local mode=$1 secs=$2 family=$3 file=$here/target/miri-$2-$3.in n t log
  n=$(nproc)
  "$here/target/default/debug/vcmon" inputs C01 "$family" 20000 "$file" || exit 2
  log=$here/target/build-miri.log
  export MIRIFLAGS="-Zmiri-disable-isolation"
  if ! (cd "$here/miri" && cargo +nightly miri run --offline --quiet \
      --target-dir "$here/target/miri" -- "$file" "$mode" 999999 1 1) >"$log" 2>&1; then
    tail -n 20 "$log"
    echo "INCONCLUSIVE the program does not run under Miri"
    exit 2
  fi
  for ((t = 0; t < n; t++)); do
    (cd "$here/miri" && MIRIFLAGS="$MIRIFLAGS -Zmiri-seed=$((VERIF_SEED * 100 + t))" \
      cargo +nightly miri run --offline --quiet --target-dir "$here/target/miri" -- \
      "$file" "$mode" "$t" "$n" "$secs" >"$here/target/miri-$t.out" 2>&1
      echo $? >"$here/target/miri-$t.rc") &
  done
  wait
  for ((t = 0; t < n; t++)); do
    if [ "$(cat "$here/target/miri-$t.rc")" != 0 ]; then
      mkdir -p "$VCMON_REPLAY"
      log=$VCMON_REPLAY/$id-miri.txt
      cp "$here/target/miri-$t.out" "$log"
      tail -n 40 "$log"
      if grep -qE "^DIFFERS|Undefined Behavior|Data race|panicked|abnormal termination" "$log"; then
        echo "VIOLATION property=$id replay=$log"
        exit 1
      fi
      echo "INCONCLUSIVE Miri did not finish"
      exit 2
    fi
  done
  n=$(cat "$here"/target/miri-*.out | awk '/^RAN /{n+=$2} END {print n+0}')
  echo "miri_$mode {\"inputs\": $n}" >>"$VCMON_EXTRA"
  echo "miri: $n inputs ($mode)"
  rm -f "$file" "$here"/target/miri-*.out "$here"/target/miri-*.rc
}
