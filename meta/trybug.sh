#!/bin/bash
# trybug.sh ID... : run each planted bug's check against it, in scratch copies of /repo and /verif
R=/tmp/tbr; W=/tmp/tbv
mkdir -p $R $W
rsync -a --delete --exclude=.git --exclude=seeded --exclude=/build/.lock /verif/ $W/
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  rsync -a --delete --checksum --exclude=target --exclude=.git /repo/ $R/
  (cd $R && git apply --unsafe-paths /verif/seeded/$id/patch.diff) || continue
  (cd $W; REPO=$R timeout 900 ./check $p quick > /tmp/bug.$id 2>&1; echo "$id $p rc=$? $(grep VIOLATION /tmp/bug.$id) $(tail -1 evidence/$p.json >/dev/null; python3 -c "import json;print(json.load(open('evidence/$p.json'))['wall_s'])")s")
done
