#!/usr/bin/env bash
# Nothing to compile: the checks are Python and import the code under test from /repo at run time.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
/opt/venv/bin/python - <<'PY'
import sys
import packaging, tomllib, rich, jinja2, cryptography  # the oracles and the code's own dependencies
print("setup ok", sys.version.split()[0], "packaging", packaging.__version__)
PY
