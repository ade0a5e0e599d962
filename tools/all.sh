#!/bin/bash
# all.sh [IDS...]: run the claimed checks, two at a time, one line each
cd /verif
ids="$*"; [ -z "$ids" ] && ids=$(python3 -c "import props;print(' '.join(props.PROPS))")
echo $ids | tr ' ' '\n' | xargs -P 3 -I{} sh -c 'o=$(timeout 900 python3 check.py {} 2>&1); r=$?; echo "$r $(echo "$o" | tail -1)"; [ $r = 0 ] || echo "$o" | grep -E "VIOLATION|rule " | head -5'
