#!/bin/bash
# usage: tools/tryplant.sh ID PROP SCEN N  - survey a planted bug in a scratch clone of /wrepo
D=$(mktemp -d /tmp/tp-XXXX); trap 'rm -rf "$D"' EXIT
git clone -q /wrepo $D/r && git -C $D/r apply ${PLANT_DIR:-/verif/seeded}/$1/patch.diff || exit 1
echo "== $1"; cd /work; VERIF_REPO=$D/r VERIF_WORKERS=${W:-2} timeout 600 python3 tools/survey.py $2 $4 $3 ${SEED:-7} 2>&1 | grep -E "violation|'ok'|Error" | head -${H:-6}
