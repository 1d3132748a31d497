#!/bin/bash
# all mutation regressions in parallel
cd "$(dirname "$0")/.."
ls tools/mutants/*.py | xargs -P 8 -I{} bash -c 'echo "{} $(python3 tools/mut.py {} | tail -1)"' | sort
