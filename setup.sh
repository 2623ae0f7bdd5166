#!/bin/bash
# Nothing needs installing: every check compiles its LD_PRELOAD seam into a scratch directory it removes
# again. This only proves that the compiler and the interpreter the checks use are there.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
d=$(mktemp -d) || exit 2
gcc -O2 -shared -fPIC -w -o "$d/simshim.so" simtatc/shim.c -ldl || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
"$PY" -c 'import numpy, pandas, geopandas, skyfield, spiceypy, pydantic, yaml' || exit 2
rm -r "$d"
