#!/bin/bash
# check.sh ID: build the monitor of a property against /repo's working tree
# and run it.  Exit 0: held on everything explored; 1: VIOLATION printed;
# anything else: no verdict.
id=$1
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
export CARGO_NET_OFFLINE=true
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
export VCMON_STATE=$here/target/state VCMON_EVIDENCE=$here/evidence/$id.json
export VCMON_REPLAY=$here/evidence/replay VCMON_HOME=$here
mkdir -p "$here/evidence" "$here/target"

# build CONFIG [cargo arguments]
build() {
  local cfg=$1; shift
  local log=$here/target/build-$cfg.log
  if ! (cd "$here/harness" && cargo build --offline --quiet \
      --target-dir "$here/target/$cfg" "$@") >"$log" 2>&1; then
    tail -n 40 "$log"
    echo "INCONCLUSIVE the harness does not build against this tree"
    exit 2
  fi
}

if [ "$VERIF_TIER" = thorough ]; then
  export VCMON_EXTRA=$here/target/extra-$id
  : >"$VCMON_EXTRA"
  . "$here/sanitize.sh"
fi

case $id in
  C01)
    build default
    if [ "$VERIF_TIER" = thorough ]; then
      sanitized address ${VCMON_STAGE:-900}
      interpreted document ${VCMON_STAGE:-900} tiny
      interpreted value ${VCMON_STAGE:-300} values
    fi
    exec "$here/target/default/debug/vcmon" check "$id"
    ;;
  C19)
    build serde --features serde &
    a=$!
    build all --features all &
    b=$!
    wait $a || exit 2
    wait $b || exit 2
    export VCMON_OTHER=$here/target/all/debug/vcmon
    exec "$here/target/serde/debug/vcmon" check "$id"
    ;;
  C24)
    build none --no-default-features &
    a=$!
    build all --features all &
    b=$!
    build default
    wait $a || exit 2
    wait $b || exit 2
    export VCMON_NONE=$here/target/none/debug/vcmon
    export VCMON_ALL=$here/target/all/debug/vcmon
    exec "$here/target/default/debug/vcmon" check "$id"
    ;;
  C22)
    # Every control flow edge is counted, in the standard library too.
    log=$here/target/build-cost.log
    if ! (cd "$here/cost" && RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard" \
        cargo +nightly build --offline --quiet -Zbuild-std \
        --target x86_64-unknown-linux-gnu --target-dir "$here/target/cost") >"$log" 2>&1; then
      tail -n 40 "$log"
      echo "INCONCLUSIVE the harness does not build against this tree"
      exit 2
    fi
    exec "$here/target/cost/x86_64-unknown-linux-gnu/debug/vccost" check
    ;;
  C21)
    # Types that can't be used from several threads any more do not compile
    # here, which is the violation to report.
    log=$here/target/build-threads.log
    if ! (cd "$here/harness" && cargo build --offline --quiet \
        --target-dir "$here/target/default" --features threads) >"$log" 2>&1; then
      if grep -qE "cannot be (sent|shared) between threads safely" "$log" &&
          (cd "$here/harness" && cargo build --offline --quiet \
            --target-dir "$here/target/default") >/dev/null 2>&1; then
        mkdir -p "$here/evidence/replay"
        cp "$log" "$here/evidence/replay/C21-threads.txt"
        VCMON_EVIDENCE=$here/evidence/C21.json "$here/target/default/debug/vcmon" check C21
        grep -E -A12 "cannot be (sent|shared) between threads safely" "$log" | head -40
        echo "VIOLATION property=C21 replay=$here/evidence/replay/C21-threads.txt"
        exit 1
      fi
      tail -n 40 "$log"
      echo "INCONCLUSIVE the harness does not build against this tree"
      exit 2
    fi
    if [ "$VERIF_TIER" = thorough ]; then
      sanitized thread ${VCMON_STAGE:-900} -Zbuild-std --features threads
      interpreted threads ${VCMON_STAGE:-900} tiny
    fi
    exec "$here/target/default/debug/vcmon" check "$id"
    ;;
  C06)
    # the builder and the conversions have a second form
    build all --features all &
    a=$!
    build default
    wait $a || exit 2
    export VCMON_OTHER=$here/target/all/debug/vcmon
    exec "$here/target/default/debug/vcmon" check "$id"
    ;;
  *)
    if [ "$VERIF_TIER" = thorough ]; then
      build all --features all
      export VCMON_OTHER=$here/target/all/debug/vcmon VCMON_OTHER_TIME=${VCMON_OTHER_TIME:-900}
    fi
    build default
    exec "$here/target/default/debug/vcmon" check "$id"
    ;;
esac
