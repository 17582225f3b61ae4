#!/bin/bash
# Builds every monitor once. A monitor that does not build is reported by its own checks.
cd /verif || exit 1
. ./env.sh
mkdir -p build/parts evidence
python3 tools/freshen.py
cd sub || exit 1
for p in $(awk '!/^#/{for(i=2;i<=NF;i++){sub(/^\+/,"",$i);print $i}}' ../parts.txt | sort -u); do
	cargo build --offline -q --bin "$p" >"../build/$p.log" 2>&1 || { echo "monitor $p did not build"; grep -E -A6 '^error' "../build/$p.log" | head -20; }
done
exit 0
