#!/bin/bash
# Nothing is installed: checks compile their harness from /repo and run TLC on /verif/spec.  This only
# verifies that the tools are there, and warms the Go build cache.
set -e
cd "$(dirname "$0")"
command -v tlc >/dev/null && command -v go >/dev/null && python3 --version
python3 - <<'PY'
import sys; sys.path.insert(0, '.')
import run, tempfile, os, shutil
w = tempfile.mkdtemp()
try:
    for a in sorted(os.listdir('harness')):
        if a != 'lib':
            try: run.build_harness(a, w)
            except run.CheckError as e: print(e)
finally:
    shutil.rmtree(w)
PY
