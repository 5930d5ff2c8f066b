#!/bin/bash
# developer helper: run every implemented spec in parallel
cd "$(dirname "$0")"
ls sa/specs/c*.py | sed 's/.*\/c\([0-9]*\).py/C\1/' | grep -v common | grep '^C[0-9]' | xargs -P 7 -I{} bash -c 'o=$(timeout 900 python3-vt run.py {} 2>&1); echo "{} rc=$? $(echo "$o" | tail -2 | cut -c1-300 | tr "\n" " ")"'
