#!/bin/bash
# Nothing is kept between runs, so every check builds what it needs itself; this proves that the framework builds and lists its scenarios.
cd "$(dirname "$0")/.." || exit 2
python3 tools/props.py budget S01 quick >/dev/null || exit 2
mkdir -p build/setup && tools/build.sh "$PWD/build/setup" S01 && build/setup/simrun --list
