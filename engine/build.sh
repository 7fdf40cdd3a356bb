#!/bin/sh
# Builds the symbolic executor into /verif/build.
set -e
cd "$(dirname "$0")"
mkdir -p ../build
if [ ../build/vxsym -nt vxsym.cpp ] && [ ../build/vxsym -nt exec.inc ] && [ ../build/vxsym -nt val.h ] && [ ../build/vxsym -nt aig.h ]; then exit 0; fi
clang++-18 -O2 -std=c++17 -w $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//') vxsym.cpp -o ../build/vxsym.tmp.$$ $(llvm-config-18 --ldflags --libs --system-libs) -lminisat
mv ../build/vxsym.tmp.$$ ../build/vxsym
