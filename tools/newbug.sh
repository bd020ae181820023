#!/bin/bash
# newbug.sh ID : takes the uncommitted change of the worktree copy /tmp/bug/repo as the patch of seeded/ID and confirms it.
# Expects seeded/ID/{demo.py,meta.json}; writes patch.diff, demo.sh, rtmpdemo.py.
set -e
V=/verif; D=$V/seeded/$1; mkdir -p $D
cp $V/tools/demo/rtmpdemo.py $D/
printf '#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n' > $D/demo.sh; chmod +x $D/demo.sh
cd /repo
[ -z "$(git status --short)" ] || { echo "/repo not clean"; exit 1; }
git apply --check $D/patch.diff
python3 - $D/patch.diff <<'P'
import sys,subprocess
f='';n=0
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f=l[6:].strip(); base=subprocess.run(['git','-C','/repo','show','8eb0422:'+f],capture_output=True,text=True).stdout.split('\n')
    elif l.startswith('-') and not l.startswith('---') and l.strip('-\n '):
        n+=1
        if l[1:].rstrip('\n') not in base: print('NOT ORIGINAL:',l.strip())
P
bash /opt/vp/build.sh > /tmp/newbug.log 2>&1 || { tail /tmp/newbug.log; exit 1; }
timeout 300 bash $D/demo.sh && echo "demo ok on the unchanged tree" || { echo "DEMO FAILS ON UNCHANGED TREE"; exit 1; }
git apply $D/patch.diff
trap 'git -C /repo checkout -q -- . ; bash /opt/vp/build.sh > /tmp/newbug.log 2>&1' EXIT
bash /opt/vp/build.sh > /tmp/newbug.log 2>&1 || { tail /tmp/newbug.log; exit 1; }
bash /opt/vp/test.sh /tmp/nb.json > /dev/null 2>&1
python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/nb.json'))['passed'];m=[x for x in b if x not in o];print('stable tests missing:',m)
raise SystemExit(1 if m else 0)"
timeout 300 bash $D/demo.sh && { echo "DEMO PASSES WITH THE BUG"; exit 1; } || echo "demo fails with the bug: good"
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd $V && python3 tools/check.py $P --tier quick | tail -4
