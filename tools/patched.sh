#!/bin/bash
# patched.sh PATCH CHECK...: runs checks (or "tests") against /repo with PATCH applied, in overlays; nothing real changes.
# Meant for refactorings, on which every check has to stay quiet.
p=$(realpath "$1"); shift
o=$(mktemp -d /tmp/patched.XXXXXX); mkdir -p "$o"/{ru,rw,bu,bw}
unshare -m bash -c "
  mount -t overlay overlay -o lowerdir=/repo,upperdir=$o/ru,workdir=$o/rw /repo &&
  mount -t overlay overlay -o lowerdir=/verif/build,upperdir=$o/bu,workdir=$o/bw /verif/build || exit 9
  cd /repo && git apply $p || exit 8
  for c in $*; do
    if [ \$c = tests ]; then bash /opt/vp/build.sh >$o/b 2>&1 || { echo no build; tail -20 $o/b; }; bash /opt/vp/test.sh $o/t.json >/dev/null 2>&1
      python3 -c \"
import json;t=json.load(open('$o/t.json'));b=json.load(open('/opt/vp/BASELINE.json'));print('tests missing',sorted(set(b['stable'])-set(t['passed'])))\"; continue; fi
    cd /verif; t=\$SECONDS; timeout 900 python3 check.py \$c --tier \${TIER:-quick} --seed \${SEED:-1} >$o/log.\$c 2>&1; e=\$?; echo \$c exit \$e in \$((SECONDS-t)) s; [ \$e = 0 ] || tail -5 $o/log.\$c | cut -c1-600
  done"
rm -rf "$o"
