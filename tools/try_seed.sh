#!/bin/bash
# try_seed.sh <id> [prop...]: applies a planted bug to /repo, builds, tests, runs its demo and checks, and undoes it.
id=$1; shift
D=/verif/seeded/$id
P=${@:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is dirty"; exit 9; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
T=$(mktemp -d /tmp/seedXXXXXX); cp -a $D/. $T/; rm -f $T/patch.diff $T/meta.json
bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo && timeout 300 bash $T/demo.sh >/tmp/demo0.log 2>&1); echo "demo unchanged: $?"
git -C /repo apply $D/patch.diff || exit 9
bash /opt/vp/test.sh /tmp/seed_o.json >/tmp/seed_build.log 2>&1; echo "build/test: $? $(python3 -c "
import json;o=json.load(open('/tmp/seed_o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
s=set(b.get('stable',b.get('passed',[])) if isinstance(b,dict) else b);print('missing stable:',sorted(s-set(o['passed'])), 'failed',o['failed'])")"
(cd /repo && timeout 300 bash $T/demo.sh >/tmp/demo1.log 2>&1); echo "demo patched: $?"; tail -3 /tmp/demo1.log
rm -rf "$T"
[ "$NOCHECK" ] || for p in $P; do (cd /verif && VERIF_SECS=${SECS:-30} python3 check.py $p 2>&1 | grep -v "^seed" | cut -c1-300); done
