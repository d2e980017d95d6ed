#!/bin/bash
# mkseed.sh ID: developer helper.  The scratch copy /tmp/seed/repo holds an edited tree; store the
# difference as seeded/ID/patch.diff after confirming it builds, passes the tests and that
# seeded/ID/demo.sh tells the two trees apart.   NOTEST=1 skips the test suite.
set -u
id=$1; d=/verif/seeded/$id; r=/tmp/seed/repo
git -C $r diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
export CARGO_NET_OFFLINE=true SLOW_TESTS=1 CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_DEV_OPT_LEVEL=1
(cd $r && bash $d/demo.sh >/tmp/seed/demo1.log 2>&1); a=$?
if [ -z "${NOTEST:-}" ]; then
 (cd $r && cargo nextest run --workspace --offline --no-fail-fast >/tmp/seed/test.log 2>&1); t=$?
 grep -a "Summary" /tmp/seed/test.log
else t=skipped; fi
git -C $r stash -q
(cd $r && bash $d/demo.sh >/tmp/seed/demo0.log 2>&1); b=$?
git -C $r stash drop -q
echo "$id: demo clean=$b patched=$a tests=$t"
