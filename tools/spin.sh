#!/bin/bash
# spin.sh PROP SEED [t]: run a seed and print the backtrace of its server process after t seconds (default 7)
cd /verif; ./build/simdrv run --prop $1 --seed $2 > /tmp/spin.out 2>&1 & P=$!
sleep ${3:-7}
Q=$(pgrep -P $P); C=$(ps -o pid=,stat= --ppid $Q | awk '$2 ~ /R/ {print $1}' | head -1)
echo "parent $P spinning ${C:-none}"
[ -n "$C" ] && gdb -q -batch -p $C -ex 'bt 12' 2>&1 | grep '^#' | cut -c1-220
kill -9 $P $Q $C 2>/dev/null; wait 2>/dev/null
