#!/bin/sh
# The checks build everything they need from /repo themselves; this verifies the tools are there.
set -e
command -v java g++ python3 protoc >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p "$(dirname "$0")/evidence"
exit 0
