#!/bin/bash
# replay.sh <harness> <flavor> <tier> <case index>: rebuilds one harness from /repo and runs one case
export VB=$(cd "$(dirname "$0")" && pwd)
exec python3 - "$@" <<'PY'
import sys, os, tempfile, shutil, subprocess
sys.path.insert(0, os.environ["VB"])
import check
h, fl, tier, i = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="buzzmc.")
try:
    e = check.build(d, [fl], [(h, fl)])
    subprocess.run([e[(h, fl)], "--tier", tier, "--only", i], env=dict(os.environ, LC_ALL="C", BUZZ_REPO=check.REPO, GLIBC_TUNABLES='glibc.malloc.tcache_count=0'))
finally:
    shutil.rmtree(d)
PY
