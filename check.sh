#!/bin/bash
# check.sh <property> [quick|thorough] [--replay FILE]: builds the property's monitors from /repo's working tree, runs them.
# Exit 0 held on everything observed; 1 with a VIOLATION line; 2 inconclusive (a monitor did not build, observed too little, or timed out).
# Parts written +name in parts.txt are additional monitors: one that does not build or is inconclusive is reported and recorded in the
# evidence, and the property is decided by the others.
cd /verif || exit 2
. ./env.sh
id=$1; shift
[ "$1" = quick -o "$1" = thorough ] && { export VERIF_TIER=$1; shift; }
parts=$(awk -v id="$id" '$1==id{for(i=2;i<=NF;i++)printf "%s ",$i}' parts.txt)
[ -z "$parts" ] && { echo "unknown property $id"; exit 2; }
mkdir -p build/parts; t0=$(date +%s.%N)
python3 tools/freshen.py
rc=0
names=
for p in $parts; do
	soft=0; case $p in +*) soft=1; p=${p#+} ;; esac; names="$names $p"
	rm -f "/verif/build/parts/$id.$p.json"
	if ! (cd sub && cargo build --offline -q --bin "$p") >"build/$p.log" 2>&1; then
		echo "INCONCLUSIVE: monitor $p does not build against this tree:"; grep -E -A6 '^error' "build/$p.log" | head -40
		[ $rc = 0 ] && [ $soft = 0 ] && rc=2; continue
	fi
	limit=840; [ "$VERIF_TIER" = thorough ] && limit=7200
	VERIF_PART=$p timeout -k 5 $limit "build/target/debug/$p" "$id" "$@"; r=$?
	case $r in 0) ;; 1) rc=1 ;; *) [ $rc = 0 ] && [ $soft = 0 ] && rc=2; echo "INCONCLUSIVE: monitor $p ended with status $r" ;; esac
done
python3 tools/merge.py "$id" "$(echo "$(date +%s.%N) $t0" | awk '{print $1-$2}')" $names
exit $rc
