#!/bin/bash
# Builds the variants C09 compares: without the parallel feature, and under ThreadSanitizer; and
# tries the probe programs.
cd "$(dirname "$0")/.."
: >out/c09-builds
fail=0
( cd harness && CARGO_TARGET_DIR=$PWD/target-seq cargo build --offline -q --release --no-default-features --bin c09 --bin c01 --bin c08 2>../out/C09.seq.log ) &
a=$!
( cd harness && CARGO_TARGET_DIR=$PWD/target-tsan RUSTFLAGS="-Zsanitizer=thread" cargo +nightly build --offline -q -Zbuild-std --target x86_64-unknown-linux-gnu --release --bin c09 2>../out/C09.tsan.log ) &
b=$!
wait $a || { echo "cannot build without the parallel feature"; grep -E '^error' -A8 out/C09.seq.log | head -20; echo 'sequential failed' >>out/c09-builds; }
wait $b || { echo "cannot build under the race detector"; grep -E '^error' -A8 out/C09.tsan.log | head -20; fail=2; }
# name, expected outcome
cp /repo/Cargo.lock probes/Cargo.lock
: >out/c09-probes
for p in moved_callback_ok:compiles joined_provers_ok:compiles moved_callback_rc:refused moved_transcript_rc:refused; do
  n=${p%%:*}; want=${p##*:}
  if (cd probes && cargo check --offline -q --bin $n 2>../out/C09.$n.log); then got=compiles
  elif grep -q 'cannot be sent between threads safely' out/C09.$n.log; then got=refused
  else got=broken; fi
  echo "$n $want $got" >>out/c09-probes
done
rm -f probes/Cargo.lock
exit $fail
