#!/bin/bash
# tool/addfix.sh PNN "commit subject prefix" "what failed": records a repaired defect
h=$(git -C /repo log --format='%h %s' | grep -F "fix: $2" | head -1 | cut -d' ' -f1)
[ -n "$h" ] || { echo "no commit: $2"; exit 1; }
echo "fixed: property=$1 $h $3" >> /verif/known_findings.txt
