#!/bin/bash
# explore.sh PROP SECONDS [SEED0]: 8 workers, prints violations and totals
export ASAN_OPTIONS=alloc_dealloc_mismatch=0:detect_odr_violation=0:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=3
R=$(python3 $(dirname $0)/build.py) || exit 2
O=/tmp/explore_$1; rm -rf /tmp/explore_$1; mkdir -p $O
S=${3:-1}
for i in 0 1 2 3 4 5 6 7; do $R/simrun search $1 $((S+i)) 8 $2 0 $O quick 2>$O/err$i & done; wait
grep -h "^violation" $O/w*.txt | cut -c1-400
grep -h "^harness_error" $O/w*.txt | cut -c1-1000
cat $O/w*.txt | awk '/^(cases|worlds|nontrivial|twice|skipped) /{a[$1]+=$2} END{for(k in a) printf "%s=%d ",k,a[k]; print ""}'
cat $O/w*.txt | awk '/^(fired|probe) /{a[$1" "$2]+=$3} END{for(k in a) printf "%s=%d; ",k,a[k]; print ""}'
