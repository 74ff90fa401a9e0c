#!/bin/bash
# Build the symbolic executor against the newest Z3 that is installed.
cd "$(dirname "$0")"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
O="-std=c++17 -O2 -w -fno-rtti"
L="-L/usr/lib/llvm-18/lib -lLLVM-18"
if [ -f $Z/include/z3++.h ] && g++ $O -I$Z/include -I/usr/lib/llvm-18/include symx.cpp -o symx.tmp -L$Z/lib -lz3 -Wl,-rpath,$Z/lib $L 2>build.log && { ./symx.tmp --version >/dev/null 2>&1; [ $? -lt 100 ]; }; then
    mv symx.tmp symx
else
    g++ $O -I/usr/lib/llvm-18/include symx.cpp -o symx $L -lz3
fi
