#!/bin/bash
# plant.sh <id>: takes the edits made in /tmp/w (a copy of /repo) as the planted bug
# /verif/seeded/<id>, whose demo.sh and meta.json exist already, and confirms that it
# changes original lines only, builds, passes the tests and is shown by its demo.
id=$1; d=/verif/seeded/$id
. /verif/env.sh
cd /tmp/w || exit 1
[ -n "$(git diff)" ] && git diff > "$d/patch.diff"
git checkout -q -- . || exit 1
[ "$(git rev-parse HEAD)" = "$(git -C /repo rev-parse HEAD)" ] || { echo "stale copy"; exit 1; }
base=9030dff
python3 - "$d/patch.diff" <<'P' || exit 1
import re,subprocess,sys
f=None; bad=0; n=0
for l in open(sys.argv[1]):
    if l.startswith('--- '): f=l[6:].strip()
    elif l.startswith('@@'):
        old=int(re.match(r'@@ -(\d+)',l).group(1))
    elif l.startswith('+++') or l.startswith('diff') or l.startswith('index'): pass
    elif l.startswith('-'):
        b=subprocess.run(['git','blame','-l','-L%d,%d'%(old,old),'HEAD','--',f],capture_output=True,text=True).stdout
        n+=1
        if not b.lstrip('^').startswith('9030dff'): print('NOT ORIGINAL',f,old,l.rstrip()); bad=1
        old+=1
    elif l.startswith(' '): old+=1
if n==0: print('no original line is changed')
sys.exit(bad or n==0)
P
bash "$d/demo.sh" > /tmp/demo0.log 2>&1 || { echo "demo fails without the patch"; tail -20 /tmp/demo0.log; exit 1; }
git apply "$d/patch.diff" || exit 1
trap 'git -C /tmp/w checkout -q -- .' EXIT
go build $(go list -e ./... | grep -v '/cmd/stl2svx$') || { echo "does not build"; exit 1; }
go vet ./... 2>/dev/null >/dev/null
go test -vet=off -count=1 $(go list -e ./... | grep -v '/cmd/stl2svx$') > /tmp/test.log 2>&1 || { echo "tests fail"; grep -v "no test files" /tmp/test.log | tail; exit 1; }
s=$(date +%s)
if bash "$d/demo.sh" > /tmp/demo1.log 2>&1; then echo "demo passes with the patch"; exit 1; fi
echo "$id: planted, demo shows it ($(($(date +%s)-s)) s): $(grep -v '^\s*$' /tmp/demo1.log | grep -m1 -i 'fail\|want\|panic\|:' | cut -c1-150)"
