#!/bin/bash
# tryseed.sh ID [notests]: apply the planted change to a scratch copy, run the stable tests, the demonstration and the property's check
ID=$1; V=$(cd "$(dirname "$0")/.." && pwd); W=/tmp/tryseed_$ID
rm -rf "/tmp/tryseed_$ID"; cp -a /repo "$W"; cd "$W" || exit 3
bash $V/seeded/$ID/demo.sh >/dev/null 2>&1; echo "$ID demo clean rc=$?"
git apply $V/seeded/$ID/patch.diff || exit 3
bash $V/seeded/$ID/demo.sh 2>&1 | tail -1; bash $V/seeded/$ID/demo.sh >/dev/null 2>&1; echo "$ID demo patched rc=$?"
P=$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")
(cd $V; THESEUS_REPO=$W VERIF_SCRATCH_EVIDENCE=/tmp/tryseed_ev_$ID /opt/venv/bin/python checks/run.py $P 2>&1 | tail -3; echo "$ID check rc=${PIPESTATUS[0]}")
if [ "$2" != notests ]; then
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=$W:$W/torchlie:$W/torchkin:/opt/vp/pytest_plugins OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES=
/opt/venv/bin/python -m pytest tests -m "not cudaext" -n 8 --dist loadfile -q -p no:cacheprovider -p vp_seed --timeout=300 --continue-on-collection-errors 2>&1 | tail -8 | sed "s/^/$ID tests: /"
fi
cd /; rm -rf "/tmp/tryseed_$ID" "/tmp/tryseed_ev_$ID"
