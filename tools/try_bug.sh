#!/bin/bash
# try_bug.sh ID [--tests]: scratch copy of /repo with the planted change; demo on both trees, check on the changed one
set -u
ID=$1; S=$(mktemp -d /tmp/trybug.XXXX); B=/verif/seeded/$ID
trap 'rm -rf "$S"' EXIT
P=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
cp -a /repo "$S/repo"
cd "$S/repo"; PYTHONPATH=$S/repo/src timeout 300 bash $B/demo.sh >$S/o 2>&1; a=$?
git apply $B/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
PYTHONPATH=$S/repo/src timeout 300 bash $B/demo.sh >$S/o2 2>&1; b=$?
[ $a = 0 ] || tail -n 5 $S/o
out=$(VERIF_REPO=$S/repo python3 /verif/check.py $P 2>&1); c=$?
t=-
if [ "${2:-}" = --tests ]; then
  PYTHONPATH=$S/repo/src PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests/test_epathlib.py tests/test_transforms.py tests/test_crudedataset.py::TestDataset::test_loader tests/test_crudedataset.py::TestDataset::test_metadataset > $S/t 2>&1; t=$?
  [ $t = 0 ] || tail -n 5 $S/t
fi
echo "$ID [$P] demo unchanged=$a patched=$b check=$c tests=$t"
[ "${V:-}" ] && { echo "$out" | tail -n 6 | cut -c1-300; tail -n 3 $S/o2; }
exit 0
