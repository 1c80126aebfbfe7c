#!/bin/sh
# Compiles the TLC operator override (java/Num.java) into build/ and parses the specifications.
set -e
cd "$(dirname "$0")"
mkdir -p build
javac -cp /opt/veriftools/tla/tla2tools.jar -d build java/Num.java
