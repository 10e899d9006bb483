#!/bin/bash
# Nothing has to be built ahead: every check builds its replayer from /repo's
# working tree. Only make sure that the tools are there.
set -e
cd "$(dirname "$0")"
command -v java g++ python3 > /dev/null
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p evidence
