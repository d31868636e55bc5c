#!/bin/bash
# dbg.sh DRIVER TRACEMOD SCRIPT : runs one script file and shows where and why its trace is rejected
V=$(dirname "$(dirname "$(readlink -f "$0")")"); W=$(mktemp -d); mkdir $W/w; VARIANT=${VARIANT:-plain}
$V/build/$VARIANT/$1 $3 $W/trace $W/w; cp $V/spec/*.tla $W; cd $W
cat > r.cfg <<X
SPECIFICATION TSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
X
TRACE=$W/trace java -Xss64m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -workers 1 -config r.cfg $2.tla > out 2>&1
K=$(grep -o 'ACCEPTED", [0-9]*' out | grep -o '[0-9]*'); echo "accepted: $K of $(wc -l < trace)"
if [ -z "$K" ]; then grep -A12 -m1 '^Error:' out; grep -A30 'nested' out | head -40; grep -n 'State [0-9]*:' out | tail -1; tail -c 1500 trace; else sed -n "$((K))p;$((K+1))p" trace | cut -c1-${W2:-5000}; fi
rm -rf $W
