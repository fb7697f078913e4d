#!/bin/bash
# usage: seed_check.sh ID...   Verifies planted bugs in a private copy of /repo bind-mounted in a user namespace.
# For each: patch applies, build and stable tests pass, demo 0 on clean / nonzero patched, and whether its check reports it.
V=$(dirname "$(dirname "$(realpath "$0")")")
for id in "$@"; do (
S=/tmp/seedrun/$id; mkdir -p $S; rsync -a --delete /repo/ $S/repo/ 2>/dev/null || cp -a /repo $S/repo
mkdir -p $S/verif $S/d; cp -a $V/engine $V/harness $V/run.py $V/ix.py $V/props.json $V/KNOWN_FINDINGS.jsonl $S/verif/; [ -d $V/build ] && cp -a $V/build $S/verif/
cp $V/seeded/$id/* $S/d/; rm -f $S/d/patch.diff $S/d/meta.json
P=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
unshare -Urm bash -c "
mount --bind $S/repo /repo; cd /repo
bash $S/d/demo.sh >$S/demo0.log 2>&1; d0=\$?
git apply $V/seeded/$id/patch.diff || { echo '$id: PATCH FAILS'; exit; }
bash $S/d/demo.sh >$S/demo1.log 2>&1; d1=\$?
t=\$(bash /opt/vp/test.sh $S/o.json 2>&1 | tail -1)
b=\$(python3 -c \"import json;b=json.load(open('/opt/vp/BASELINE.json'));b=b['stable'];o=set(json.load(open('$S/o.json'))['passed']);print(len([x for x in b if x not in o]))\")
cd $S/verif; python3 run.py $P --tier quick >$S/check.log 2>&1; c=\$?
echo \"$id $P demo \$d0/\$d1 lost-tests \$b check-exit \$c \$(grep -h VIOLATION $S/check.log | head -1) :: \$(grep -h '^violated' $S/check.log | head -2 | cut -c1-160)\"
"
) & done; wait
