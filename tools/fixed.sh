#!/bin/bash
# tools/fixed.sh PROPERTY "commit subject pattern" "what failed"
echo "fixed: property=$1 $(git -C /repo log --format=%h -1 --grep="$2") $3" >> /verif/known-findings.txt; tail -1 /verif/known-findings.txt
