#!/bin/bash
# try_seed.sh ID [check ids...]: applies seeded/ID to a scratch copy of /repo (/tmp/rs), builds it, runs the
# repository's tests, the demonstration and the check on it, and undoes it.
cd /verif || exit 2
id=$1; shift; d=/verif/seeded/$id; R=/tmp/rs; H=/tmp/hs
[ -d $R ] || cp -a /repo $R
[ -z "$(git -C $R status --porcelain)" ] || { echo "$R dirty"; exit 2; }
[ "$(git -C $R rev-parse HEAD)" = "$(git -C /repo rev-parse HEAD)" ] || git -C $R pull -q /repo || exit 2
mkdir -p $H; rm -rf /tmp/hs/src /tmp/hs/py; cp -r harness/src harness/py harness/Cargo.lock $H/; sed "s#\"/repo/#\"$R/#" harness/Cargo.toml > $H/Cargo.toml
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
. /opt/vp/env.sh
bld() { (cd $R && cargo test --workspace --no-run --offline) >/tmp/seed.log 2>&1; }
trap 'git -C $R checkout -q -- .' EXIT
if [ -z "${SKIP_CLEAN:-}" ]; then
bld; (cd $R && bash $d/demo.sh >/tmp/seed_demo.log 2>&1) && { grep -q "^error" /tmp/seed_demo.log && echo "$id: DEMO DOES NOT COMPILE" || echo "$id: demo clean ok"; } || { echo "$id: DEMO FAILS ON CLEAN"; tail -5 /tmp/seed_demo.log; }
fi
git -C $R apply $d/patch.diff || { echo "$id: APPLY FAILED"; exit 2; }
bld || { echo "$id: BUILD FAILED"; tail -20 /tmp/seed.log; exit 2; }
if [ -z "${SKIP_TEST:-}" ]; then
(cd $R && timeout 120 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >/tmp/seed_test.log 2>&1); python3 /opt/vp/results.py /tmp/seed.json cargo:/tmp/seed_test.log >/dev/null; python3 -c "
import json;o=json.load(open('/tmp/seed.json'));b=json.load(open('/opt/vp/BASELINE.json'));m=set(b['stable'])-set(o['passed']);print('$id: tests', 'ok' if not m else ('MISSING',m))"
(cd $R && timeout 300 bash $d/demo.sh >/tmp/seed_demo.log 2>&1) && echo "$id: DEMO DOES NOT FAIL" || echo "$id: demo fails as wanted: $(tail -1 /tmp/seed_demo.log | cut -c1-150)"
fi
unset RUSTUP_TOOLCHAIN RUSTC_WRAPPER CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
export HMMCL_REPO=$R VERIF_ROOT=/tmp/devroot CARGO_TARGET_DIR=$H/target
cargo build --release --offline --manifest-path $H/Cargo.toml >/tmp/seed_build.log 2>&1 || { echo "$id: HARNESS BUILD FAILED"; tail -5 /tmp/seed_build.log; exit 2; }
for c in ${*:-$prop}; do
s=$(date +%s); $H/target/release/hmmcl-mc check $c quick >/tmp/seed_check.log 2>&1; rc=$?
echo "$id: check $c rc=$rc $(( $(date +%s)-s ))s: $(grep -m1 '^  \[' /tmp/seed_check.log | cut -c1-220)"
[ $rc = 2 ] && tail -5 /tmp/seed_check.log
done
