#!/bin/bash
# run quick checks of the given properties
cd "$(dirname "$0")/.." ; for p in "$@"; do python3 run.py check $p ${TIER:-quick} 2>&1 | cut -c1-420 | head -${LINES_MAX:-14}; echo "[$p exit ${PIPESTATUS[0]}]"; done
