#!/bin/bash
# developer helper: run one check with bounded output
cd $(dirname $0)/..; python3 vt/check.py "$@" 2>&1 | grep -E "error:|VIOLATION|key=|cases,|ERROR|incon|failed|died" | cut -c1-${W:-600} | head -${N:-14}
