#!/bin/bash
# build.sh <harness> [extra flags]: builds /verif/harness/<harness>.cpp with the code under test from /repo/base.
set -e
here="$(cd "$(dirname "$0")" && pwd)"; name="$1"; shift
repo="${GENCPP_REPO:-/repo}"; out="${PBT_BUILD:-$here/../.build}"; mkdir -p "$out"
flags=(-std=c++17 -fms-extensions -fdelayed-template-parsing -Wno-everything -g1 -O1 -fno-omit-frame-pointer -fno-strict-aliasing -fwrapv
  -fsanitize=address -DGEN_BUILD_DEBUG=0 -DGEN_DONT_USE_FATAL -I"$repo/base" -I"$here")
src="$here/${SRC:-$name}.cpp"
# a harness with a <name>.pre.sh has more to build than itself: it is given <out>/<name>.aux to do so
pre=(); [ -f "$here/$name.pre.sh" ] && pre=("$repo"/gen_* "$repo/scripts/.clang-format" "$here/$name" "$here/$name.pre.sh")
key="$( { clang++-18 --version; echo "${flags[@]} $* $src"; find "$repo/base" "$here" -type f \( -name '*.hpp' -o -name '*.cpp' -o -name '*.csv' \) -print0 | sort -z | xargs -0 sha256sum; [ ${#pre[@]} = 0 ] || find "${pre[@]}" \( -name gen -o -name build \) -prune -o -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum | cut -c1-32 )"
if [ "$(cat "$out/$name.key" 2>/dev/null)" != "$key" ] || [ ! -x "$out/$name" ]; then
  [ ${#pre[@]} = 0 ] || bash "$here/$name.pre.sh" "$repo" "$out/$name.aux" >&2 &
  clang++-18 "${flags[@]}" "$@" "$src" -o "$out/$name.tmp$$" && wait && mv "$out/$name.tmp$$" "$out/$name" && echo "$key" > "$out/$name.key"
fi
echo "$out/$name"
