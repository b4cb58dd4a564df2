#!/bin/bash
# determinism.sh PROP [RUNS]: same seeds, different worker counts and hash seeds must give identical event logs
p=$1; n=${2:-200}; d=$(mktemp -d)
DST_HASHSEED=11 ./check.py $p --runs $n --jobs 8 --keep-going --hashes $d/a >/dev/null
DST_HASHSEED=11 ./check.py $p --runs $n --jobs 3 --keep-going --hashes $d/b >/dev/null
DST_HASHSEED=4242 ./check.py $p --runs $n --jobs 5 --keep-going --hashes $d/c >/dev/null
a=$(diff $d/a $d/b | grep -c '^<'); b=$(diff $d/a $d/c | grep -c '^<')
echo "$p: runs $(wc -l <$d/a), differing between worker counts: $a, differing between hash seeds: $b"
