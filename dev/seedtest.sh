#!/bin/bash
# seedtest.sh ID : validates seeded/ID against /repo (applies, builds, tests, demo; reverts)
cd /repo; S=/verif/seeded/$1
[ -n "$(git status --short)" ] && { echo "repo dirty"; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1; (cd /repo; bash $S/demo.sh >/tmp/demo0 2>&1); a=$?
git apply $S/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || echo BUILD FAILS
t=$(bash /opt/vp/test.sh /tmp/t.json 2>&1 | tail -1)
(cd /repo; bash $S/demo.sh >/tmp/demo1 2>&1); b=$?
if [ -n "$2" ]; then for p in $2; do timeout 900 python3 /verif/run.py $p > /tmp/seed.$1.$p 2>&1; echo "check $p exit $? $(grep -c ^VIOLATION /tmp/seed.$1.$p) $(tail -1 /tmp/seed.$1.$p)"; done; fi
git checkout -- .; bash /opt/vp/build.sh >/dev/null 2>&1
echo "$1: unchanged demo=$a patched demo=$b tests: $t"; tail -2 /tmp/demo1
