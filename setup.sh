#!/bin/bash
# Nothing is built ahead of time: every check builds the library from /repo's working tree. Only the tools are looked for.
set -e
for t in java g++ bison flex python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
test -f /opt/veriftools/tla/tla2tools.jar
java -cp /opt/veriftools/tla/tla2tools.jar tla2sany.SANY -help >/dev/null 2>&1 || true
