#!/bin/bash
# Offline set-up: checks that the tools are there and builds the library once.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
java -version 2>&1 | head -1
test -f /opt/veriftools/tla/tla2tools.jar
bash lib/build.sh py
