#!/bin/bash
# Checks that the tools are there and that every specification parses.
set -e
cd "$(dirname "$0")"
test -x /opt/venv/bin/python
command -v tlc >/dev/null
t=$(mktemp -d)
trap 'rm -rf -- "$t"' EXIT
cd spec
for m in *.tla; do
  tla-sany "$m" > "$t/out" 2>&1 || { cat "$t/out"; exit 1; }
  if grep -q -E "^\*\*\* |Fatal errors|Could not parse" "$t/out"; then cat "$t/out"; exit 1; fi
done
cd "$t" && PYTHONPATH=/repo/src:"$OLDPWD"/.. PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import harness.common"
echo setup ok
