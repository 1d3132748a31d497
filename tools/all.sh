#!/bin/bash
# run every check in parallel on /repo's working tree, print the summary lines
cd "$(dirname "$0")/.."
mkdir -p /tmp/scr/ev
ls sa/props/c*.py | sed 's/.*\/c\(.*\)\.py/C\1/' | VERIF_EVIDENCE=/tmp/scr/ev xargs -P 8 -I{} bash -c 'python3 sa/run.py {} > /tmp/scr/o.{} 2>&1; echo "$? $(tail -1 /tmp/scr/o.{} | cut -c1-150)"' | sort -k2
