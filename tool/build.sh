#!/bin/bash
# Builds the IR normaliser/exporter into /verif/.build/irx (ignored by git).
set -e
cd "$(dirname "$0")"
out=../.build; mkdir -p $out
[ -x $out/irx ] && [ $out/irx -nt irx.cpp ] && exit 0
/usr/bin/clang++-18 -std=c++20 -O1 $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//') -w irx.cpp -o $out/irx.$$ $(llvm-config-18 --ldflags) -lLLVM-18
mv $out/irx.$$ $out/irx
