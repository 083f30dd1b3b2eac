#!/bin/bash
# mkbug.sh ID: (edit script on stdin, python: receives sub(file, old, new)) -> writes /verif/seeded/ID/patch.diff from a scratch worktree copy
V=$(cd "$(dirname "$0")/.."; pwd); id=$1; W=/tmp/mk_$id; rm -rf "/tmp/mk_$id"; mkdir -p $W $V/seeded/$id; cp -a /repo $W/repo; cd $W/repo
cat > $W/e.py <<P
def sub(f, old, new, cnt=1):
    s = open(f).read(); assert s.count(old) == cnt, (f, s.count(old)); open(f, 'w').write(s.replace(old, new))
P
cat >> $W/e.py
python3 $W/e.py && git diff > $V/seeded/$id/patch.diff; git diff --stat; rm -rf /tmp/mk_$id
