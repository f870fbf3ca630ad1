#!/bin/bash
# Checks the toolchain; the builds themselves are made by the checks (cached under /verif/.build by content hash).
set -e
cd "$(dirname "$0")/.."
mkdir -p .build evidence
python3 -c "import json; json.load(open('MANIFEST.json'))"
test -f /opt/veriftools/tla/tla2tools.jar
g++ --version >/dev/null; cmake --version >/dev/null; java -version 2>/dev/null
echo setup ok
