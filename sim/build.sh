#!/bin/bash
# build.sh OUTDIR [release|debug]: compiles /repo's current working tree together
# with the simulator into OUTDIR/simhost-<variant>.
set -e -o pipefail
here=$(cd "$(dirname "$0")" && pwd)
out=$1; variant=${2:-release}; main=${3:-driver}
repo=${ETHOS_REPO:-/repo}
mkdir -p "$out/$variant"
hook=""
if [ "$variant" = debug ]; then eflags="-O1 -DEO_ASSERTIONS -DEO_TRACING"; else eflags="-O1 -DNDEBUG"; fi
CXX=/usr/bin/g++
std="-std=gnu++17 -fno-pie -Wno-deprecated -w"
rm -f "$out/$variant"/*.o
# the plugin needs the headers of ethos; without it the checks of the plugin
# interface say so
if $CXX $std $eflags -I"$repo/src" -I"$here" -c "$here/plugin.cpp" -o "$out/$variant/h_plugin.o" 2>"$out/$variant/plugin.log"; then
  hook="-DETHOS_SIM_PLUGIN"
fi
jobs_file=$(mktemp)
{
  find "$repo/src" -name '*.cpp' | LC_ALL=C sort | while read -r f; do
    o=$out/$variant/e_$(echo "${f#$repo/src/}" | tr '/.' '__').o
    d=""
    [ "$(basename "$f")" = main.cpp ] && d="-Dmain=ethos_main $hook"
    echo "$CXX $std $eflags $d -I$repo/src -c $f -o $o"
  done
  for f in "$here"/*.cpp; do
    b=$(basename "$f" .cpp)
    case $b in
      smoke|driver) [ "$b" = "$main" ] || continue;;
      plugin) continue;;
    esac
    echo "$CXX $std -O1 -g1 -c $f -o $out/$variant/h_$b.o"
  done
} > "$jobs_file"
xargs -P "$(nproc)" -I{} sh -c '{}' < "$jobs_file"
rm -f "$jobs_file"
$CXX -static -no-pie -o "$out/simhost-$variant" "$out/$variant"/*.o -lgmp \
  -Wl,--wrap=clock_gettime,--wrap=gettimeofday,--wrap=time,--wrap=clock
