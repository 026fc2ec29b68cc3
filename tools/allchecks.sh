#!/bin/bash
# all checks on $VERIF_REPO (default /repo), one line each
cd "$(dirname "$0")/.."
for i in $(seq -w 1 ${1:-28}); do
  s=$(date +%s); timeout 900 python3 check.py C$i > /tmp/ac.$$ 2>&1; rc=$?
  echo "C$i rc=$rc $(($(date +%s)-s))s $(tail -1 /tmp/ac.$$ | cut -c1-200)"
  grep -E "^VIOLATION|KNOWN-FINDING" /tmp/ac.$$ | head -3
done
rm -f /tmp/ac.$$
