#!/bin/bash
# Builds the symbolic executor (engine/) into build/. Safe to run concurrently and repeatedly.
set -e
cd "$(dirname "$0")"; mkdir -p build
exec 9>build/.lock; flock 9
H=$(cat engine/* rt/* shim/* shim/ext/* setup.sh 2>/dev/null | sha256sum | cut -c1-16)
[ -f build/stamp ] && [ "$(cat build/stamp)" = "$H" ] && exit 0
( cd engine
  clang++-18 -O1 -std=c++17 $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') -c lower.cpp -o ../build/lower.o &&
  clang++-18 ../build/lower.o $(llvm-config-18 --ldflags) -lLLVM-18 -o ../build/lower ) & a=$!
( cd engine; clang++-18 -O2 -std=c++17 symx.cpp -o ../build/symx -lz3 ) & b=$!
F="-std=c++17 -O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fno-pic -fno-pie -D_GNU_SOURCE -DNDEBUG -D_FILE_OFFSET_BITS=64 -w -Ishim -emit-llvm -c"
clang++-18 $F rt/cxxrt.cpp -o build/rt_cxxrt.bc & c=$!
clang++-18 $F -ffreestanding -fno-builtin rt/libc.cpp -o build/rt_libc.bc & d=$!
clang++-18 $F rt/env.cpp -o build/rt_env.bc & e=$!
clang++-18 $F rt/env_net.cpp -o build/rt_env_net.bc & f=$!
clang++-18 $F rt/streams.cpp -o build/rt_streams.bc & g=$!
N="-std=c++17 -O1 -g1 -fsanitize=address -fno-omit-frame-pointer -D_GNU_SOURCE -DNDEBUG -D_FILE_OFFSET_BITS=64 -w -Ishim -c"
for x in env env_net streams native; do clang++-18 $N rt/$x.cpp -o build/n_$x.o & h="$h $!"; done
for p in $a $b $c $d $e $f $g $h; do wait $p; done
echo "$H" > build/stamp
