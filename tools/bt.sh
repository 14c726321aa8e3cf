#!/bin/bash
# bt.sh DRIVER SCEN#IDX [SECONDS] [VARIANT] [SEED]: where does a hanging case spend its time (debug aid)
D=$(dirname "$(readlink -f "$0")")/..; V=${4:-san}; X=$(ls -t $D/.build/$V/exe-$1-* | head -1)
$X --seed ${5:-1} --only "$2" --limit-ms 600000 --out /tmp/bt.o --progress /tmp/bt.p & P=$!
sleep ${3:-4}; gdb -p $P -batch -ex bt 2>/dev/null | grep -a "^#" | cut -c1-230; kill -9 $P
