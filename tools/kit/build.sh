#!/bin/bash
# build.sh DIR: builds the code in the current directory's stl-to-ps/ into DIR/demo (the library) and DIR/prog (the program).
set -e
K=$(cd "$(dirname "$0")" && pwd); W=$1; S=$PWD/stl-to-ps
mkdir -p $W/gen/stl-to-ps
bison -Wnone --defines=$W/gen/stl-to-ps/parser.tab.h -o $W/gen/stl-to-ps/parser.tab.cc $S/parser.y
flex --header-file=$W/gen/stl-to-ps/lexer.yy.h -o $W/gen/stl-to-ps/lexer.yy.cc $S/lexer.l
F="-std=c++17 -O1 -w -DEIGEN_INITIALIZE_MATRICES_BY_ZERO $CXXFLAGS_DEMO -I$K/shim -I$W/gen -I$PWD -isystem /usr/include/eigen3"
P=()
for f in $S/*.cc $W/gen/stl-to-ps/*.cc $K/driver.cc $K/main_driver.cc $K/shim/native_support.cc; do
  case $f in *_test.cc|*/test_main.cc|*/stl-to-ps-main.cc) continue;; esac
  g++ $F -c $f -o $W/$(basename $f .cc).o & P+=($!)
done
for p in "${P[@]}"; do wait $p; done
L="-labsl_strings -labsl_str_format_internal -labsl_time -labsl_time_zone -labsl_base -labsl_int128 -labsl_throw_delegate -labsl_raw_logging_internal -labsl_strings_internal"
O=$(ls $W/*.o | grep -v driver.o)
g++ $CXXFLAGS_DEMO $O $W/driver.o -o $W/demo $L
g++ $CXXFLAGS_DEMO $O $W/main_driver.o -o $W/prog $L
