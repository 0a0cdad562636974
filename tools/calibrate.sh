#!/bin/bash
# Builds /repo's own test suites (the parser's and the full drafter one, fixtures included) against the stand-ins
# for the absent submodules, so that the stand-ins' faithfulness can be measured.  usage: calibrate.sh [OUTDIR]
# Not a check; nothing in MANIFEST.json uses it.
out=${1:-$(mktemp -d /tmp/drafter-cal.XXXXXX)}
repo=${DRAFTER_REPO:-/repo}; here=$(cd "$(dirname "$0")/.." && pwd); P=$repo/packages
mkdir -p $out/obj $out/gen
python3 - <<PY
import sys; sys.path.insert(0, "$here/tools"); sys.argv=["x"]
import check, config
check.REPO="$repo"; check.write_version("$out/gen")
for g in ("pipeline",):
    print("\n".join(sorted({("$P/"+s) if not s.startswith("@") else "$here/"+s[1:] for s in config.SOURCES[g]})), file=open("$out/pipe.list","w"))
PY
INC="-I$here/tools/cal -I/opt/vp/cmake/include -I$out/gen -I$here/shim/mpark -I$here/shim/pegtl -I$here/shim/pegtl/tao -I$here/shim/sundown -I$here/shim/cmdline -I$P/boost -I$P/apib/include -I$P/apib/src -I$P/apib-parser/include -I$P/apib-parser/src -I$P/apib-parser/src/snowcrash -I$P/apib-parser/src/markdown-parser -I$P/drafter/src -I$P/apib-parser/test -I$P/apib-parser/test/snowcrash -I$P/drafter/test"
find $P/apib-parser/test -name '*.cc' ! -path '*performance*' > $out/ap.list
find $P/drafter/test -name '*.cc' > $out/dr.list
compile() { while read f; do echo "$f $out/obj/$(echo $f | tr '/.' '__').o"; done | xargs -P 8 -L 1 sh -c 'clang++ -std=c++17 -g1 -O1 -w -include cstdint -DNDEBUG -DDRAFTER_BUILD_STATIC=1 -DDRAFTER_TEST_FIXTURES=\"'$P'/drafter/test/fixtures/\" '"$INC"' -c $0 -o $1 2>$1.err || { echo FAIL $0; grep -m3 error $1.err; }'; }
cat $out/pipe.list $out/ap.list $out/dr.list | compile
obj() { sed 's#[/.]#_#g; s#^#'$out'/obj/#; s#$#.o#' $1 | while read o; do [ -e $o ] && echo $o; done; }
[ -e /opt/vp/cmake/main.cc ] && { echo /opt/vp/cmake/main.cc | compile; M=$out/obj/_opt_vp_cmake_main_cc.o; }
clang++ -o $out/apt $(obj $out/pipe.list) $(obj $out/ap.list) -lpthread 2>&1 | tail -3
clang++ -o $out/drt $(obj $out/pipe.list) $(obj $out/dr.list) -lpthread 2>&1 | tail -3
cd $out; for t in apt drt; do [ -e $t ] && ./$t > $t.out 2>&1; tail -4 $t.out; done; echo $out
