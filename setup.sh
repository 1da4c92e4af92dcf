#!/bin/bash
# nothing to build: the checks are Python over clang's AST of /repo's current source
set -e
command -v clang++ >/dev/null && command -v python3 >/dev/null
python3 -m compileall -q /verif/sa /verif/rules || true
