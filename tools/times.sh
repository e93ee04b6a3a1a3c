#!/bin/sh
# where a harness spends its time: tools/times.sh BINARY PROPERTY [SHARDS]
VERIF_DIR=/verif VERIF_TIMES=1 "$1" --property "$2" --tier quick --seed 1 --shard 0 --shards "${3:-4}" --out /dev/null 2>&1 | awk '/^TOOK/{t[$2]+=$3;n[$2]++} END{for(k in t) print k, n[k], t[k]}'
