#!/bin/bash
# trybug.sh ID: run the check of a planted bug's property against a scratch copy with the bug
cd /verif; for id in "$@"; do
d=/tmp/tb-$id; rm -rf /tmp/tb-$id; cp -a /repo $d; git -C $d apply /verif/seeded/$id/patch.diff || exit 3
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
VP_REPO=$d VERIF_SEED=1 python3 vp/check.py $p quick > /tmp/tb-$id.log 2>&1; echo "$id rc=$? $(grep -c '^failed obl' /tmp/tb-$id.log) failed obl; $(grep ^VIOLATION /tmp/tb-$id.log); $(tail -1 /tmp/tb-$id.log)"
rm -rf /tmp/tb-$id
done
