#!/bin/sh
# Checks that the tools are there and that the framework compiles; checks build what they need themselves.
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence replays
for t in g++ clang++ python3; do command -v "$t" >/dev/null; done
g++ -std=c++17 -O0 -w -fsyntax-only harness/rc_main.cpp
clang++ -std=c++17 -w -fsyntax-only harness/fuzz_main.cpp
echo "setup ok"
