#!/bin/bash
# run.sh CNN [quick|thorough] [--seed N | --replay FILE]: build the monitored harness from /repo's
# working tree and run one check. Exit 0 held, 1 violated (with a VIOLATION line), 2 no answer.
set -u
cd "$(dirname "$0")"
export VERIF_DIR="$PWD"
id=$1; shift
bin=$(echo "$id" | tr 'A-Z' 'a-z')
case "${1:-}" in
  quick|thorough) export VERIF_TIER=$1 ;;
esac
profile=release
# the totality check runs with overflow checks and debug assertions
[ "$id" = C05 ] && profile=checked
mkdir -p evidence out
rm -f "evidence/$id.json"
if ! (cd harness && cargo build --offline -q --profile $profile --bin "$bin" 2>"../out/$id.build.log"); then
  grep -E '^error' -A8 "out/$id.build.log" | head -40
  echo "cannot build the harness against /repo"
  exit 2
fi
[ -x "pre/$id.sh" ] && { "pre/$id.sh" "$@" || exit $?; }
limit=840; [ "${VERIF_TIER:-quick}" = thorough ] && limit=7200
# the library prints debug output; only lines of this check are passed on
timeout $limit "harness/target/$profile/$bin" "$@" 2>"out/$id.err" >"out/$id.out"
rc=$?
grep -aE '^(VIOLATION|violation|KNOWN-FINDING|inconclusive|\[C[0-9])' "out/$id.out"
case $rc in
  0|1|2) exit $rc ;;
  134|139|132|136|135)
    cp "out/$id.err" "out/$id-crash.replay"
    echo "violation: the process died (status $rc)"
    echo "VIOLATION property=$id replay=out/$id-crash.replay"
    exit 1 ;;
  *) echo "check ended with status $rc"; tail -5 "out/$id.err"; exit 2 ;;
esac
