#!/bin/bash
# Exit 0 when the property holds for the demonstrated history, nonzero otherwise. Run with cwd /repo.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'cd / && rm -rf "$W"' EXIT
gcc -O1 -shared -fPIC -o "$W/clock.so" "$HERE/clock.c" -ldl || exit 2
mkdir "$W/w"
for f in "$REPO"/*; do
    [ "$(basename "$f")" = data ] || ln -s "$f" "$W/w/"
done
cp -a "$REPO/data" "$W/w/data"
cd "$W/w" || exit 2
export HOME=$W TMPDIR=$W LC_ALL=C.UTF-8 TZ=UTC PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPATH=$REPO:$HERE LD_PRELOAD=$W/clock.so MC_CLOCK=$W/clock.so MC_NOW=1772020800
timeout 250 /opt/venv/bin/python "$HERE/demo.py"
