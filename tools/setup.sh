#!/bin/bash
# Builds the symbolic executor and the native replay runtime into /verif/build (git-ignored).
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
exec 9>build/lock; flock 9
stamp=$(cat engine/* harness/vp_native.cpp harness/vp.h tools/setup.sh | sha256sum | cut -d' ' -f1)
if [ -x build/hsmx ] && [ "$(cat build/stamp 2>/dev/null)" = "$stamp" ]; then exit 0; fi
CXXF=$(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//;s/-std=c++[0-9a-z]*//')
clang++ -O2 -g0 -std=c++17 -Wno-deprecated-declarations $CXXF -fexceptions -frtti engine/interp.cpp -o build/hsmx.tmp -lz3 $(llvm-config-18 --ldflags) -lLLVM-18 &
g++ -std=c++20 -O1 -Iharness -c harness/vp_native.cpp -o build/vp_gcc.o &
clang++ -std=c++20 -O1 -g -fsanitize=address,undefined -fno-sanitize-recover=undefined -Iharness -c harness/vp_native.cpp -o build/vp_asan.o &
clang++ -std=c++20 -O1 -g -fsanitize=memory -DVP_MSAN -Iharness -c harness/vp_native.cpp -o build/vp_msan.o &
clang++ -std=c++20 -O1 -fno-vectorize -fno-slp-vectorize -D_GLIBCXX_ASSERTIONS -w -emit-llvm -c engine/rt_std.cpp -o build/rt_std.bc &
clang -O1 -fno-vectorize -fno-slp-vectorize -fno-strict-aliasing -fexceptions -w -emit-llvm -c engine/rt_exc.c -o build/rt_exc.bc &
clang -O1 -fno-vectorize -fno-slp-vectorize -w -emit-llvm -c engine/rt_tree.c -o build/rt_tree.bc &
for p in $(jobs -p); do wait $p; done
llvm-link-18 build/rt_std.bc build/rt_exc.bc build/rt_tree.bc -o build/rt.bc
mv build/hsmx.tmp build/hsmx
echo "$stamp" > build/stamp
