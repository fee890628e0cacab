#!/bin/bash
# tools/seedtest.sh [-c] ID...   confirms planted bugs in a scratch copy of the repository (never in /repo): applies, builds, passes
# the stable tests, demo fails with it and passes without it; with -c also runs the check of its property against it.
SR=/tmp/sr; VP=/tmp/vp; VS=/tmp/vs; CHK=0; [ "$1" = -c ] && { CHK=1; shift; }
if [ ! -d $SR/_build ]; then
    mkdir -p $SR $VP; cp -a /repo/. $SR/; rm -rf /tmp/sr/_build; cp -a /opt/vp/. $VP/
    grep -rl '/repo\|/opt/vp' $VP | xargs sed -i "s#/repo#$SR#g; s#/opt/vp#$VP#g"
fi
git -C $SR checkout -q -- . ; git -C $SR pull -q /repo HEAD 2>/dev/null
bash $VP/build.sh >/tmp/seed_build.log 2>&1 || { echo "base build failed"; exit 1; }
S=$(mktemp -d); rc=0
for id in "$@"; do cp -r /verif/seeded/$id $S/; (cd $SR && bash $S/$id/demo.sh >/tmp/demo_$id.base 2>&1); echo "$id base demo $?"; done
mkdir -p $VS; [ $CHK = 1 ] && rsync -a --exclude build --exclude evidence --exclude seeded /verif/ $VS/
for id in "$@"; do
    git -C $SR checkout -q -- .
    git -C $SR apply /verif/seeded/$id/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
    if ! bash $VP/test.sh /tmp/seed_o.json >/tmp/seed_build.log 2>&1; then echo "$id BUILD FAILED"; tail -5 /tmp/seed_build.log; continue; fi
    python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed_o.json'))
base=set(b.get('stable',b.get('passed',b)) if isinstance(b,dict) else b); m=base-set(o['passed'])
print(sys.argv[1],'tests',len(o['passed']),'missing',sorted(m)[:4])
P
    (cd $SR && bash $S/$id/demo.sh >/tmp/demo_$id.bug 2>&1); echo "$id bug demo $? : $(tail -1 /tmp/demo_$id.bug)"
    if [ $CHK = 1 ]; then
        p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
        (cd $VS && VERIF_REPO=$SR VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 bin/check.py $p >/tmp/chk_$id.log 2>&1); echo "$id check $p -> $? : $(grep -m1 VIOLATION /tmp/chk_$id.log) $(tail -1 /tmp/chk_$id.log)"
    fi
done
git -C $SR checkout -q -- .
rm -rf "$S"
