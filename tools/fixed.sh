#!/bin/bash
# fixed.sh PROPERTY 'part of the commit subject' 'what failed': append a fixed entry to known_findings.txt
h=$(git -C /repo log --format=%h --fixed-strings --grep="$2" | head -1)
[ -n "$h" ] || { echo "no commit for $2"; exit 1; }
echo "fixed: property=$1 $h $3" >> "$(dirname "$0")/../known_findings.txt"
