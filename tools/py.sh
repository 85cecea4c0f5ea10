#!/bin/bash
# tools/py.sh [asan] SCRIPT...: runs a script against a fresh build of the working tree
V=opt; if [ "$1" = asan ]; then V=asan; shift; fi
cd "$(dirname "$0")/.." || exit 2
eval "$(/opt/vp/venv/bin/python - $V <<'P'
import sys; sys.path.insert(0,'.')
from lib import build as B
import os,shlex
v=sys.argv[1]; e=B.child_env(v,B.build(v))
for k,x in e.items():
    if os.environ.get(k)!=x: print('export %s=%s'%(k,shlex.quote(x)))
P
)"
exec /opt/vp/venv/bin/python "$@"
