"""tools/mkseed.py ID PROP: turn the working-tree change of /tmp/sb into seeded/ID (patch.diff, demo.sh, meta.json); demo.py, needs and what come from stdin as python: DEMO, NEEDS, WHAT"""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop = sys.argv[1:3]
ns = {}
exec(sys.stdin.read(), ns)
d = os.path.join(H, "seeded", sid); os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/tmp/sb", "diff"], capture_output=True, text=True, check=True).stdout
assert diff, "no change"
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.py", "w").write(ns["DEMO"].lstrip("\n"))
open(d + "/demo.sh", "w").write("""#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
W=$(mktemp -d) || exit 9
trap 'rm -rf "$W"' EXIT
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 TMPDIR=$W NUMBA_CACHE_DIR=$W MPLCONFIGDIR=$W JUPYTER_PLATFORM_DIRS=1
"$PY" "$D/demo.py"
""")
os.chmod(d + "/demo.sh", 0o755)
json.dump(dict(property=prop, needs=ns["NEEDS"], what_it_breaks=ns["WHAT"]), open(d + "/meta.json", "w"), indent=1)
subprocess.run(["git", "-C", "/tmp/sb", "checkout", "-q", "--", "."], check=True)
print("seeded", sid, len(diff.splitlines()))
