#!/bin/bash
# run.sh <property> [quick|thorough]: build the property's harness from /repo's current tree and run it.
cd "$(dirname "$0")" || exit 3
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"; seed="${VERIF_SEED:-1}"; lc="$(echo "$id" | tr 'A-Z' 'a-z')"
mkdir -p evidence replays
flags=(); [ -f "harness/$lc.flags" ] && read -r -a flags < "harness/$lc.flags"
log="$(mktemp /tmp/pbt-build.XXXXXX)"
bin="$(harness/build.sh "$lc" "${flags[@]}" 2>"$log")" || { echo "cannot build the harness of $id against the current tree:"; head -40 "$log"; rm -f "$log"; exit 3; }
rm -f "$log"
wall=600; [ "$tier" = thorough ] && wall="${PBT_WALL:-820}"
# the libraries of C19 define what the harness defines
export ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:handle_abort=0:detect_odr_violation=0 UBSAN_OPTIONS=print_stacktrace=0
exec "$bin" --tier "$tier" --seed "$seed" --out "evidence/$id.json" --known known/findings.txt --replays replays --wall "$wall" "${@:3}"
