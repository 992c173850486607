#!/bin/bash
# developer helper: fix.sh PROP "commit message" "what failed" files...
P=$1; M=$2; W=$3; shift 3
V=$(cd $(dirname $0)/..; pwd); cd ${VT_REPO:-/repo} && git add "$@" && git commit -qm "fix: $M" && echo "fixed: property=$P $(git log -1 --format=%h) $W" >> $V/known-findings.txt && git log --oneline -1
