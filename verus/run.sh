#!/bin/bash
# run.sh UNIT-args... : extraction and verification by hand (development only)
# usage: run.sh name "overlays" "keeps" "verify keys separated by |"  [extra]
n=$1; W=/verif/work/$n; mkdir -p $W
a=(); for o in $2; do a+=(--overlay /verif/verus/$o.vo); done
for k in $3; do a+=(--keep $k); done
IFS='|' read -ra V <<< "$4"; for v in "${V[@]}"; do a+=(--verify "$v"); done
root=${ROOT:-/repo/matchit/src/lib.rs}
/verif/extract/target/debug/extract --root $root "${a[@]}" --out $W/x.rs --report $W/x.rep || exit
D=/verif/verus/deps/target/debug/deps
ext=(); for c in memchr regex; do ext+=(--extern $c=$(ls $D/lib$c-*.rlib | head -1)); done
cd $W; time verus --crate-type lib x.rs -L $D "${ext[@]}" ${@:5}
