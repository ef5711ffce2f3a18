#!/bin/bash
# tools/seedcheck.sh ID...: confirms planted bugs in a private copy of /repo
# (bind-mounted over /repo in a mount namespace of its own): the demo passes on
# the unchanged tree, the patch applies, builds, passes the stable tests, and
# the demo then fails.  Results: build/seedcheck.log
V=$(cd "$(dirname "$0")/.." && pwd)
C=${SEEDCOPY:-/tmp/rc1}
[ -d $C ] || cp -a /repo $C
git -C $C fetch -q /repo HEAD && git -C $C reset -q --hard FETCH_HEAD
mkdir -p $V/build
for id in "$@"; do
  S=$V/seeded/$id
  export S C
  unshare -Urm bash -c '
    mount --bind $C /repo || exit 9
    cd /repo; git checkout -q -- .
    D=$(mktemp -d /tmp/demo.XXXX); cp -r $S/. $D/; rm -f $D/*.diff $D/meta.json
    r="'$id'"
    timeout 300 bash $D/demo.sh > $D/o1 2>&1 && r="$r clean:ok" || r="$r clean:FAIL"
    if git apply $S/patch.diff; then
      if bash /opt/vp/build.sh > $D/b 2>&1; then r="$r build:ok"; else r="$r build:FAIL"; fi
      bash /opt/vp/test.sh $D/t.json > $D/t 2>&1
      r="$r $(python3 - $D/t.json <<E
import json,sys
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]);o=json.load(open(sys.argv[1]))
m=b-set(o["passed"]);print("tests:ok" if not m else "tests:FAIL(%s)"%sorted(m)[:3])
E
)"
      timeout 300 bash $D/demo.sh > $D/o2 2>&1 && r="$r bug:NOTSHOWN" || r="$r bug:shown"
    else r="$r APPLYFAIL"; fi
    git checkout -q -- .
    echo "$r"; tail -3 $D/o2 | cut -c1-200
    rm -rf "$D"
  ' 2>&1 | tee -a $V/build/seedcheck.log
done
