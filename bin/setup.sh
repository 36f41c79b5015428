#!/bin/bash
# Nothing has to be installed: every check builds what it needs from /repo's
# working tree.  This only verifies that the tools are there.
set -e
cd "$(dirname "$0")/.."
for t in g++ java python3; do command -v $t > /dev/null; done
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p evidence out
echo setup done
