#!/bin/bash
# all.sh [IDs]: runs the checks one after another
cd /verif
for c in ${@:-$(python3 -c 'import props;print(*sorted(props.PROPS))')}; do
  s=$(date +%s)
  timeout 900 python3 check.py run $c > /tmp/all.$c 2>&1
  echo "$c exit $? $(( $(date +%s) - s )) s; $(grep -E '^(VIOLATION|KNOWN|error|Bad)' /tmp/all.$c | head -3 | cut -c1-200)"
done
