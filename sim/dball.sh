#!/bin/bash
# usage: dball.sh FROM TO props...
a=$1; b=$2; shift 2
props="${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C17 C18 C19 C20 C21 C23}"
for p in $props; do echo $p; done | xargs -P8 -I{} sh -c "PYTHONHASHSEED=\$((RANDOM % 8)) /opt/venv/bin/python dbg.py {} $a $b > /tmp/dbg_{}.txt 2>&1"
for p in $props; do echo "== $p"; cut -c1-420 /tmp/dbg_$p.txt; done
