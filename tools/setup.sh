#!/bin/bash
# Compile the IEEE arithmetic that TLC evaluates the specification with.
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d build java/Floats.java 2>/dev/null
