#!/bin/sh
# Nothing persistent is needed: every check builds its own harness from /repo's working tree. Verify the tools exist.
set -e
cd "$(dirname "$0")/.."
for t in java g++ python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p build evidence
echo ok
