#!/bin/bash
# Helper to validate planted bugs in a scratch copy (/tmp/bw), and to run the
# checks against them.  bug.sh demo|tests|check ID [PROPERTY [SECS]]
set -u
W=/tmp/bw
ID=${2:-}
S=${SEEDED:-/verif/seeded}/$ID
prep() {
    if [ ! -d $W/src ]; then
        rm -rf /tmp/bw && git -C /repo worktree prune && git clone -q /repo /tmp/bw && cp -a /repo/target /tmp/bw/target
        # submodules and ignored data the build may need
        mkdir -p /tmp/bwvp
    fi
    mkdir -p /tmp/bwvp
    for f in env build test; do sed "s#/repo#$W#g; s#/opt/vp/env.sh#/tmp/bwvp/env.sh#" /opt/vp/$f.sh > /tmp/bwvp/$f.sh; done
    git -C $W checkout -q -- . && git -C $W fetch -q /repo HEAD && git -C $W reset -q --hard FETCH_HEAD
}
lib() { (cd $W && . /tmp/bwvp/env.sh && cargo build $SCOPE >/tmp/bwvp/build.log 2>&1) || { tail -30 /tmp/bwvp/build.log; return 1; }; }
demo() { (cd $W && timeout 300 bash $S/demo.sh); }
case $1 in
demo)
    prep; lib || exit 1
    demo; r=$?; echo "unchanged: $r"; [ $r = 0 ] || exit 1
    git -C $W apply $S/patch.diff || exit 1
    lib || exit 1
    demo; r=$?; echo "patched: $r"; git -C $W checkout -q -- .
    [ $r != 0 ] ;;
tests)
    prep; git -C $W apply $S/patch.diff || exit 1
    bash /tmp/bwvp/build.sh >/tmp/bwvp/build.log 2>&1 || { tail -30 /tmp/bwvp/build.log; exit 1; }
    bash /tmp/bwvp/test.sh /tmp/bwvp/t.json >/tmp/bwvp/t.log 2>&1
    git -C $W checkout -q -- .
    python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];t=json.load(open('/tmp/bwvp/t.json'))
m=[x for x in b if x not in t['passed']]
print("stable tests missing:",m); raise SystemExit(1 if m else 0)
P
    ;;
check)
    P=${3:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
    git -C /repo apply $S/patch.diff || exit 1
    VERIF_SEED=${VERIF_SEED:-1} bash /verif/check.sh $P quick; r=$?
    git -C /repo checkout -q -- .
    echo "check $P on $ID: $r" ;;
esac
