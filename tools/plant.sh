#!/bin/bash
# plant.sh ID PROP "needs" "breaks" < demo.py : saves /repo's uncommitted diff as seeded bug ID and reverts it
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff -U9 > $d/patch.diff
test -s $d/patch.diff
cat > $d/demo.py
cat > $d/demo.sh <<'E'
#!/bin/bash
. /opt/vp/env.sh
export PYTHONPATH=/repo/src
exec "$PY" -W ignore "$(dirname "$0")/demo.py"
E
python3 - "$@" <<'E'
import json,sys
i,p,n,b=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(f"/verif/seeded/{i}/meta.json","w"),indent=1)
E
if [ -n "$TEST" ]; then :; fi
bash /opt/vp/build.sh --extensions >/dev/null 2>&1
(cd /repo; bash $d/demo.sh >/tmp/w/demo.out 2>&1) && { echo "DEMO DOES NOT FAIL"; } || { echo "demo fails with patch (good): $(tail -1 /tmp/w/demo.out)"; }
cd /verif; /opt/venv/bin/python check.py $2 | tail -3 | cut -c1-300
git -C /repo checkout -- .
bash /opt/vp/build.sh --extensions >/dev/null 2>&1
(cd /repo; bash $d/demo.sh >/tmp/w/demo.out 2>&1) && echo "demo ok without" || { echo "DEMO FAILS WITHOUT PATCH"; tail -3 /tmp/w/demo.out; }
