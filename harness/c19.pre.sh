#!/bin/bash
# c19.pre.sh <repo> <out>: runs the generators of /repo on Linux and builds each generated library as a shared object with the
# interpreter of c19/ops.inl on top. Everything happens in copies below <out>.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$1"; out="$2"
rm -rf "$out"; mkdir -p "$out/scripts" "$out/so"; cp -r "$repo/base" "$out/base"; cp "$repo/scripts/.clang-format" "$out/scripts/"
one() {   # one <directory> <generator> <names of shared objects...>
  local dir="$1" src="$2"; mkdir -p "$out/$dir"; ( cd "$repo/$dir" && find . \( -path ./gen -o -path ./build \) -prune -o -type f -print0 | tar cf - --null -T - ) | tar xf - -C "$out/$dir"
  mkdir -p "$out/$dir/gen" "$out/$dir/build"
  ( cd "$out" && clang++-18 -std=c++17 -fms-extensions -fdelayed-template-parsing -O0 -w -include "$here/c19/pre.h" -DGEN_BUILD_DEBUG=1 -DGEN_TIME -Ibase "$dir/$src" -o "$out/$dir.gen" ) || return 1
  ( cd "$out/$dir" && PATH="$here/c19/bin:$PATH" timeout 200 "$out/$dir.gen" > "$out/$dir.log" 2>&1 ) || { echo "$dir: the generator fails"; tail -5 "$out/$dir.log"; return 1; }
}
common=(-fms-extensions -Wno-everything -g1 -O1 -fno-omit-frame-pointer -fno-strict-aliasing -fwrapv -fsanitize=address -DGEN_BUILD_DEBUG=0 -DGEN_DONT_USE_FATAL -DGEN_TIME -shared -fPIC -fvisibility=hidden -Wl,-Bsymbolic -I"$here/c19")
cpp() { clang++-18 -std=c++17 -fdelayed-template-parsing "${common[@]}" "${@:3}" -I"$out/$2/gen" "$here/c19/so.cpp" -o "$out/so/$1.so"; }
c() { clang-18 -std=gnu11 -fgnu89-inline "${common[@]}" -include "$here/c19/pre.h" -D__null=0 "${@:3}" -I"$out/$2/gen" "$here/c19/so.c" -o "$out/so/$1.so"; }
# what cannot be generated or compiled is left out, with its messages in <out>/so/<library>.log: the harness reports it
( { one gen_singleheader singleheader.cpp && cpp singleheader gen_singleheader -DSINGLEHEADER; } > "$out/so/singleheader.log" 2>&1 ) &
( { one gen_segmented segmented.cpp && cpp segmented gen_segmented; } > "$out/so/segmented.log" 2>&1 ) &
( { one gen_unreal_engine unreal.cpp && cpp unreal gen_unreal_engine -DUNREAL; } > "$out/so/unreal.log" 2>&1 ) &
( one gen_c_library c_library.cpp > "$out/so/c_singleheader.log" 2>&1 && { c c_singleheader gen_c_library -DSINGLEHEADER >> "$out/so/c_singleheader.log" 2>&1 & c c_segmented gen_c_library > "$out/so/c_segmented.log" 2>&1; wait; } ) &
wait
exit 0
