#!/bin/sh
# Nothing is built: specifications are interpreted by TLC, drivers by Python.
# Only check that the tools are there and that every specification parses.
cd "$(dirname "$0")" || exit 1
java -version >/dev/null 2>&1 || { echo "java is missing"; exit 1; }
test -x /opt/venv/bin/python || { echo "/opt/venv is missing"; exit 1; }
mkdir -p evidence
J=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
cd spec || exit 1
out=$(java -cp $J tla2sany.SANY *.tla 2>&1)
if echo "$out" | grep -q -E '\*\*\* (Errors|Abort)|Fatal|Could not parse'; then echo "$out" | tail -40; exit 1; fi
echo "setup ok"
