#!/bin/sh
# Builds the engine; everything that depends on /repo is built by each check.
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
python3 -c 'import sys; sys.path.insert(0, "tools"); import driver; driver.build_engine()'
