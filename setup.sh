#!/bin/bash
# Nothing to build: the specifications are read by TLC and the harness imports /repo.
# Verify that the tools are there and that every specification parses.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
JARS=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
/opt/venv/bin/python -B -c 'import numpy, yaml' || exit 1
t=$(mktemp -d) || exit 1
trap 'rm -rf -- "$t"' EXIT
cd spec || exit 1
for f in *.tla; do
  java -Djava.io.tmpdir="$t" -cp "$JARS" tla2sany.SANY "$f" > "$t/log" 2>&1 || { cat "$t/log"; exit 1; }
done
echo "setup ok"
