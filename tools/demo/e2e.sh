# Sourced by a demo: compares $W/old/a.c and $W/new/a.c (functions listed in $W/fl) end to end; compare options are the arguments.
. /opt/vp/env.sh
export PYTHONPATH=/repo PYTHONWARNINGS=ignore
W=${W:-$(mktemp -d)}; trap 'cd /; rm -rf "$W"' EXIT; mkdir -p $W/old $W/new
compile() { (cd $W/$1 && clang -S -emit-llvm -O1 -g -Xclang -disable-llvm-passes $CF $PWD/a.c -o a.ll && opt -S -passes='lowerswitch,mem2reg,loop-simplify,simplifycfg,gvn,dce,mergereturn' a.ll -o a.ll); }
snaps() { cd $W; for v in old new; do compile $v; rm -rf $W/snap-$v; python3 /repo/bin/diffkemp llvm-to-snapshot $v a.ll snap-$v fl >/dev/null 2>&1 || exit 9; done; }
compare() { cd $W; python3 /repo/bin/diffkemp compare snap-old snap-new --stdout --report-stat "$@" 2>&1; }
