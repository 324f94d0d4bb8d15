#!/bin/bash
# replay.sh FILE [trace]: rebuilds from /repo and runs one recorded case; exit 1 if it violates the property
export ASAN_OPTIONS=alloc_dealloc_mismatch=0:detect_odr_violation=0:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=3
R=$(python3 "$(dirname "$0")/tools/build.py" | tail -1) || exit 2
exec "$R/simrun" replay "$@"
