#!/bin/bash
# seed_check.sh ID...: runs the check of each planted bug's property against the patched repository (overlays; nothing real changes).
for id in "$@"; do
  s=/verif/seeded/$id; o=/tmp/seedchk.$id
  rm -rf "$o"; mkdir -p "$o"/{ru,rw,bu,bw}
  prop=${PROP:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
  unshare -m bash -c "
    mount -t overlay overlay -o lowerdir=/repo,upperdir=$o/ru,workdir=$o/rw /repo &&
    mount -t overlay overlay -o lowerdir=/verif/build,upperdir=$o/bu,workdir=$o/bw /verif/build || exit 9
    cd /repo && git apply $s/patch.diff && cd /verif && t=\$SECONDS &&
    timeout 900 python3 check.py $prop --tier \${TIER:-quick} --seed \${SEED:-1} >$o/log 2>&1; echo $prop exit \$? in \$((SECONDS-t)) s; grep -a VIOLATION $o/log | head -3 | cut -c1-300" 2>&1 | sed "s/^/$id: /"
  rm -rf "$o"/{ru,rw,bu,bw}
done
