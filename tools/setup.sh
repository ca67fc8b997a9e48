#!/bin/bash
# Builds the exploration engine (each check builds its own harnesses from /repo's working tree).
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
g++ -std=c++20 -O2 -g1 -Iengine -c engine/mc_rt.cpp -o build/engine-check.o
python3 -c "import json,sys; json.load(open('MANIFEST.json'))"
echo engine ok
