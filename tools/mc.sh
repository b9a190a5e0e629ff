#!/bin/bash
# tools/mc.sh CONFIG mc-arguments...: build the explorer in one configuration and run it (for development)
cd "$(dirname "$0")/.." && exec python3 - "$@" <<'PY'
import sys, os
sys.argv, a = ["x"], sys.argv[1:]
sys.path.insert(0, ".")
import check
check.REPO_HASH = check.repo_hash()
cfg = check.CONFIGS[a[0]]
cmd, env = check.build(cfg)
cmd = list(cmd) + a[1:]
os.execvpe(cmd[0], cmd, env)
PY
