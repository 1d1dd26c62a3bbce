#!/bin/bash
# Nothing to compile in /verif itself: the checks are Python and rebuild /repo's
# extensions as needed.  Build them once here so that the first check is quick.
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
build_ext > /tmp/vk-setup.log 2>&1 || { tail -30 /tmp/vk-setup.log; exit 1; }
"$PY" -c "import json,sys; json.load(open('$HERE/MANIFEST.json'))" && echo setup ok
