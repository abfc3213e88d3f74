#!/bin/bash
# try_seed.sh ID [PROPERTY]: runs the check on /repo with the change applied
ID=$1; P=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$ID/patch.diff || exit 1
cd /verif && for p in ${P//,/ }; do timeout 900 python3 check.py run $p | tail -4; echo "$ID $p exit ${PIPESTATUS[0]}"; done
git -C /repo checkout -- .
