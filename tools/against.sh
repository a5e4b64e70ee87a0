#!/bin/bash
# development aid: tools/against.sh REPO_COPY c01 [args]: run a check against a scratch copy of the
# repository instead of /repo (build output under $ctm). No registered command uses this.
set -e
ctm=${CTM:-/tmp/ctm}
repo=$(realpath "$1"); bin=$2; shift 2
mkdir -p $ctm/h $ctm/verif/evidence
rm -rf $ctm/h/src; cp -r /verif/harness/src $ctm/h/src
cp /verif/harness/Cargo.lock $ctm/h/
sed -e "s#/repo/#$repo/#g" -e 's#\.\./vendor#/verif/vendor#g' /verif/harness/Cargo.toml > $ctm/h/Cargo.toml
cp /verif/known-findings.txt $ctm/verif/ 2>/dev/null || true
cd $ctm/h
prof=release; [ "$bin" = c05 ] && prof=checked
rm -f "$ctm/target/$prof/$bin" # a failed build must not leave an older one to run
CARGO_TARGET_DIR=$ctm/target cargo build --offline -q --profile $prof --bin $bin 2>&1 | grep -E '^error' -A7 || true
VERIF_DIR=$ctm/verif timeout 800 $ctm/target/$prof/$bin "$@" 2>$ctm/$bin.err | grep -E '^(VIOL|viol|\[C|KNOWN)' | cut -c1-260
