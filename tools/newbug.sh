#!/bin/bash
# newbug.sh ID PROP : take the current diff of /repo as planted bug ID, write demo skeleton files, undo
id=$1; d=/verif/seeded/$id; mkdir -p $d
git -C /repo diff > $d/patch.diff; git -C /repo checkout -- .
cp /verif/tools/demo_mini.py $d/mini.py
cat > $d/demo.sh <<'X'
#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 SETUPTOOLS_SCM_PRETEND_VERSION=1.0.0
work="$(mktemp -d)"; trap 'rm -rf "$work"' EXIT
export NUMBA_CACHE_DIR="$work/numba" TMPDIR="$work"
/opt/venv/bin/python "$here/demo.py"
X
