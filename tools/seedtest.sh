#!/bin/bash
# seedtest.sh ID [PROP...]: apply seeded/ID to /repo, build, run tests + demo + checks, undo. (developer tool; no check uses it)
cd /verif; id="$1"; shift; d=/verif/seeded/$id
props="$*"; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 9; }
if [ -z "$SKIP_BASE" ]; then (cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1; bash $d/demo.sh >/tmp/demo_base.log 2>&1; echo "demo on base: $?"); fi
git -C /repo apply $d/patch.diff || exit 8
trap 'git -C /repo checkout -- .' EXIT
if [ -z "$SKIP_DEMO" ]; then
(cd /repo && bash /opt/vp/build.sh >/tmp/seedbuild.log 2>&1 || { echo BUILD-FAILED; tail -20 /tmp/seedbuild.log; exit 7; }
 bash /opt/vp/test.sh /tmp/o.json 2>&1 | tail -1
 bash $d/demo.sh >/tmp/demo_bug.log 2>&1; echo "demo on bug: $?"; tail -2 /tmp/demo_bug.log)
fi
for p in $props; do ./check.sh $p | grep -v "^check" | tail -4; echo "check $p exit ${PIPESTATUS[0]}"; done
