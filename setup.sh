#!/bin/bash
# Nothing to compile: checks the tools the checks rely on and parses every specification.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -B -c 'import kerncraft, sympy, numpy, osaca, cachesim'
java -version >/dev/null 2>&1
d=$(mktemp -d)
cp spec/* "$d"/
( cd "$d"
  for m in *.tla; do
    java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
      tla2sany.SANY "$m" >"$m.log" 2>&1 || { cat "$m.log"; exit 1; }
  done )
rm -rf "$d"
mkdir -p evidence
echo setup ok
