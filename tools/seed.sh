#!/bin/bash
# Author's tool: turns the edits in a scratch copy of /repo into /verif/seeded/<id> and confirms them.
#   tools/seed.sh <id> [scratch copy, default /tmp/wt]
# Needs demo.rs (or demo.sh) and meta.json in the folder already; writes patch.diff.
set -u
id=$1; wt=${2:-/tmp/wt}; d=/verif/seeded/$id
[ -f $d/meta.json ] || { echo "no $d/meta.json"; exit 1; }
git -C $wt diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "empty patch"; exit 1; }
[ -f $d/demo.sh ] || cp /verif/tools/demo_template.sh $d/demo.sh
chmod +x $d/demo.sh
git -C /repo apply --check $d/patch.diff || exit 1
cd $wt || exit 1
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_TARGET_DIR=$wt/target
SLOW='test(=tests::network_swift3::swift3_test::dot_test)
    + test(=tests::iris_swift3::iris_swift3_test::hwd_test_swift3)
    + test(=tests::iris_swift3::iris_swift3_test::cmp_iris_test_swift3)
    + test(=tests::iris_swift3::iris_swift3_test::full_test_swift3)'
cargo nextest run --workspace --no-fail-fast --locked --offline --run-ignored all -E "not ($SLOW)" --test-threads 8 >/tmp/seed_$id.log 2>&1 && t=pass || t=FAIL
tail -4 /tmp/seed_$id.log | head -3
timeout 300 $d/demo.sh >/tmp/seed_$id.with 2>&1; w=$?
git -C $wt checkout -q -- .
timeout 300 $d/demo.sh >/tmp/seed_$id.without 2>&1; wo=$?
git -C $wt apply $d/patch.diff
echo "$id tests=$t demo-with=$w demo-without=$wo"
[ $t = pass ] && [ $w != 0 ] && [ $wo = 0 ]
