#!/bin/bash
# where.sh REPLAY [ADDR]: replay with a call stack (and the accesses to an address), symbolised.
export SIM_BT=1
[ -n "$2" ] && export SIM_WATCH=$2
python3 /verif/check.py --replay "$1" > /tmp/where.$$ 2>&1
X=$(ls -t /verif/build/x-* | head -1)
grep -v "^bt:" /tmp/where.$$ | tail -14
for a in $(grep "^bt:" /tmp/where.$$ | sed 's/bt: //') $(grep -o "pc 0x[0-9a-f]*" /tmp/where.$$ | tail -6 | sed 's/pc //'); do
  echo "$a $(addr2line -fCie $X $a | paste - - | sed -E 's/<[^\t]*>//; s/^([^\t]{0,100})[^\t]*/\1/' | head -3 | tr '\n' '|' | cut -c1-330)"
done
rm -f /tmp/where.$$
