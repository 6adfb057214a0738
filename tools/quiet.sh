#!/bin/bash
# quiet.sh [KIND...] [-- CHECK...]: run the checks on rewritten copies of the tree; prints only alarms
cd "$(dirname "$0")/.."
kinds=(); checks=(); m=0
for a in "$@"; do if [ "$a" = "--" ]; then m=1; elif [ $m = 0 ]; then kinds+=($a); else checks+=($a); fi; done
[ ${#kinds[@]} = 0 ] && kinds=(rename augment swapif temps comploop helper alias guard ifexp noop enum property kwdict delegate)
[ ${#checks[@]} = 0 ] && checks=($(ls sa/rules/c[0-9]*.py | sed 's/.*\/c/C/;s/.py//'))
T=$(mktemp -d /tmp/quiet.XXXX)
for k in "${kinds[@]}"; do python3 tools/refactor.py $k $T/$k & done; wait
export T
run() { o=$(VERIF_REPO=$T/$1 VERIF_OUT=$T python3 check.py $2 2>&1); r=$?; [ $r = 0 ] || { echo "== $1 $2 -> $r"; echo "$o" | grep -v "^C.*rule instances\|^VIOLATION" | cut -c1-${W:-260} | head -${N:-6}; }; }
export -f run
for k in "${kinds[@]}"; do for c in "${checks[@]}"; do echo $k $c; done; done | xargs -P 8 -L 1 bash -c 'run $0 $1'
rm -rf "$T"
