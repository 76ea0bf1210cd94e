#!/bin/bash
# mkdemo.sh ID: puts demo.sh and the kit beside /verif/seeded/ID/demo.cpp
V="$(cd "$(dirname "$0")/.." && pwd)"; D="$V/seeded/$1"; mkdir -p "$D/kit/a/b/c"; cp "$V/tools/demokit/demo.sh" "$D/demo.sh"; cp "$V/tools/demokit/win.cpp" "$V/tools/demokit/demo.h" "$V/port/port.py" "$V/shim/msvc_compat.h" "$V/shim/windows.h" "$V/sim/blas.cpp" "$D/kit/"; cp -r "$V/shim/_extern" "$D/kit/"; touch "$D/kit/a/b/c/.keep"
