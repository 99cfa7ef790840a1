#!/bin/bash
# Compiles the Java classes that evaluate the real-number operators of the
# specification, and checks that TLC runs them.
set -e
cd "$(dirname "$0")"
rm -rf build
mkdir -p build
javac -cp /opt/veriftools/tla/tla2tools.jar -d build java/*.java
./run.sh selftest
