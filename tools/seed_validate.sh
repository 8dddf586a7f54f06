#!/bin/bash
# seed_validate.sh ID...: applies /verif/seeded/ID/patch.diff to a scratch copy, builds, runs the stable tests and the demo on both trees.
# Everything happens in a copy of the repository mounted over /repo in a private namespace, so paths stay the same.
for id in "$@"; do
  s=/verif/seeded/$id
  out=/tmp/seedval.$id; mkdir -p "$out"
  rm -rf "$out/repo" "$out/demo"; cp -a /repo "$out/repo"; cp -a "$s" "$out/demo"; rm -f "$out/demo/patch.diff" "$out/demo/meta.json"
  unshare -m bash -c "
    mount --bind $out/repo /repo || exit 9
    cd /repo && git checkout -q -- . 
    bash /opt/vp/build.sh >$out/b0.log 2>&1
    timeout 300 bash $out/demo/demo.sh >$out/d0.log 2>&1; echo clean demo \$? 
    git apply $s/patch.diff || { echo DOES NOT APPLY; exit 1; }
    bash /opt/vp/build.sh >$out/b1.log 2>&1 || { echo DOES NOT BUILD; tail -20 $out/b1.log; exit 1; }
    timeout -k 5 300 bash /opt/vp/test.sh $out/t.json >/dev/null 2>&1
    python3 -c \"
import json;t=json.load(open('$out/t.json'));b=json.load(open('/opt/vp/BASELINE.json'));print('passed',len(t['passed']),'missing',sorted(set(b['stable'])-set(t['passed'])))\"
    timeout 300 bash $out/demo/demo.sh >$out/d1.log 2>&1; echo patched demo \$?; tail -3 $out/d1.log
  " 2>&1 | sed "s/^/$id: /"
  rm -rf "$out/repo" "$out/demo"
done
