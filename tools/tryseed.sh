#!/bin/bash
# tryseed.sh ID [crate...]: demo on clean tree, demo+tests with patch, then the property's check. Undoes the patch.
id=$1; shift
S=/verif/seeded/$id
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo
git diff --quiet || { echo "repo dirty"; exit 2; }
[ -n "$NODEMO" ] || { bash $S/demo.sh >/tmp/ts.log 2>&1 && echo "demo clean: ok" || { echo "demo clean: FAIL"; tail -5 /tmp/ts.log; }; }
git apply $S/patch.diff || exit 2
trap 'git -C /repo checkout -- .' EXIT
[ -n "$NODEMO" ] || { bash $S/demo.sh >/tmp/ts.log 2>&1 && echo "demo patched: DID NOT FAIL" || { echo "demo patched: fails as wanted"; tail -2 /tmp/ts.log; }; }
for c in "$@"; do . /opt/vp/env.sh; cargo nextest run -p $c --offline --no-fail-fast 2>&1 | grep -E " FAIL |Summary|^error" | sort | uniq | head -8; done
[ -n "$NOCHECK" ] || (cd /verif && python3 check.py $P 2>&1 | tail -4; echo "check rc ${PIPESTATUS[0]}")
