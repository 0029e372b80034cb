#!/bin/bash
# Runs the repository's test programs concretely through the symbolic engine and compares their output with the expected text.
W=$(mktemp -d); trap 'rm -rf $W' EXIT; cd $W; H=$(dirname $(realpath $0))/..; B=/usr/lib/llvm-18/bin
F="-std=c++14 -O1 -Xclang -disable-llvm-passes -fno-vectorize -fno-slp-vectorize -fno-threadsafe-statics -fno-builtin -DNDEBUG=1 -w -gline-tables-only -emit-llvm -c"
ls /repo/*.cc /repo/test/*.cc | xargs -P8 -I{} sh -c "$B/clang++ $F -I/repo {} -o $W/\$(basename {} .cc).bc"
$B/clang -O1 -Xclang -disable-llvm-passes -fno-builtin -w -emit-llvm -c $H/rt/rt.c -o rt.bc
LIBS=$(cd /repo; ls *.cc | sed 's/\.cc$/.bc/')
for t in /repo/test/?????.cc; do n=$(basename $t .cc); [ $n = stdtest ] && continue
$B/llvm-link $n.bc stdtest.bc $LIBS rt.bc -o $n.all.bc && $B/opt -passes='function(sroa,early-cse,simplifycfg)' $n.all.bc -o $n.o.bc
timeout 120 $H/build/symx $n.o.bc --entry=main --concrete --max-steps=200000000 --log=$n.log > $n.out 2>$n.err2 < $t
if diff -q $n.out /repo/test/$n.std >/dev/null; then echo PASS $n; else echo FAIL $n $(grep -v '"t":"stat"' $n.log | tail -1 | cut -c1-300); fi; done
