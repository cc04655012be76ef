#!/bin/bash
# Nothing is compiled: check that the toolchain is there and every specification parses.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
test -x /opt/venv/bin/python
d=$(mktemp -d)
cp spec/*.tla "$d"
cd "$d"
for f in *.tla; do tla-sany "$f" >"$f.log" 2>&1 || { cat "$f.log"; rm -rf "$d"; exit 1; }; done
rm -rf "$d"
echo setup ok
