#!/bin/bash
# development aid: tools/seed.sh ID [CHECK [args]]: confirms the planted bug seeded/ID in a scratch copy of
# /repo (/tmp/seedwt, made with cp -a): its demonstration passes without the patch, the patched tree builds and
# passes the tests, the demonstration fails with it; then runs CHECK (default: that of its property) against it.
# No registered command uses this.
id=$1; shift
d=/verif/seeded/$id
prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
check=${1:-$(echo "$prop" | tr 'C' 'c')}; shift || true
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_DEV_OPT_LEVEL=1
cd /tmp/seedwt || exit 2
git checkout -q -- .
if [ -z "$SKIP_DEMO" ]; then
    timeout 300 bash $d/demo.sh > /tmp/seedtool/clean.log 2>&1; echo "demo clean: $?"
fi
git apply --check $d/patch.diff && git apply $d/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
if [ -z "$SKIP_TESTS" ]; then
    timeout 900 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/seedtool/test.log 2>&1
    echo "tests: rc $? $(grep -E '^test result' /tmp/seedtool/test.log | grep -oE '[0-9]+ (passed|failed)' | awk '{s[$2]+=$1} END {for (k in s) printf "%s %s; ", s[k], k}')"
fi
if [ -z "$SKIP_DEMO" ]; then
    timeout 300 bash $d/demo.sh > /tmp/seedtool/bug.log 2>&1; echo "demo patched: $?"; tail -3 /tmp/seedtool/bug.log
fi
unset CARGO_PROFILE_DEV_DEBUG CARGO_PROFILE_DEV_OPT_LEVEL
/verif/tools/against.sh /tmp/seedwt $check "$@" | tail -6
git checkout -q -- .
