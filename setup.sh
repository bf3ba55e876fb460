#!/bin/bash
# Compiles the arithmetic override used by TLC. Checks redo this themselves if needed.
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/.build"
javac -d "$here/.build" -cp /opt/veriftools/tla/tla2tools.jar "$here"/tla/*.java
