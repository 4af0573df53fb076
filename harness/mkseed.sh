#!/bin/bash
# mkseed.sh ID PROPERTY : turns /repo's uncommitted change into seeded/ID (demo.sh/demo.py on stdin as python) and undoes it
# usage: edit /repo, then  NEEDS=.. BREAKS=.. mkseed.sh ID PROP < demo.py
set -e
id=$1; d=/verif/seeded/$id
mkdir -p $d
cat > $d/demo.py
git -C /repo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change in /repo"; exit 1; }
git -C /repo checkout -- .
cat > $d/demo.sh <<'X'
#!/bin/bash
export PYTHONPATH=/repo/_build/pkg LD_LIBRARY_PATH=/repo/_build/pkg/awkward PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu
exec timeout 250 /opt/vp/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
X
python3 - "$2" "$NEEDS" "$BREAKS" > $d/meta.json <<'X'
import json, sys
print(json.dumps({"property": sys.argv[1], "needs": sys.argv[2], "what_it_breaks": sys.argv[3]}, indent=1))
X
echo "seeded $id: $(grep -c '^[-+][^-+]' $d/patch.diff) lines"
