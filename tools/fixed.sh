#!/bin/bash
# fixed.sh PROPERTY "subject prefix of fix commit": record a repaired defect
h=$(git -C /repo log --format='%h' --grep="^fix: $2" | head -1); s=$(git -C /repo log -1 --format='%s' $h | sed 's/^fix: //')
[ -n "$h" ] && echo "fixed: property=$1 $h $s" >> /verif/known_findings.txt; tail -1 /verif/known_findings.txt
