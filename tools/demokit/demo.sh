#!/bin/bash
# builds demo.cpp against ./nntl (cwd: the repository) and runs it; exit status 0: behaves as documented
D="$(cd "$(dirname "$0")" && pwd)"; R="$(pwd)"; W="$(mktemp -d)"; trap 'rm -rf "$W"' EXIT
F="-std=c++17 -O1 -w -pthread -fno-strict-aliasing -ffp-contract=off -fms-extensions -fms-compatibility -fms-compatibility-version=19 -fdelayed-template-parsing -U__OPTIMIZE__ -D__cdecl= -DNDEBUG -D_WIN32_WINNT=0x0601 -DNNTL_MATLAB_AVAILABLE=0"
for t in BOOL CHAR CHAR16_T CHAR32_T WCHAR_T SHORT INT LONG LLONG POINTER; do F="$F -D__GCC_ATOMIC_${t}_LOCK_FREE=2"; done; F="$F -D__GCC_ATOMIC_TEST_AND_SET_TRUEVAL=1"
X=""; [ -f "$D/flags" ] && X="$(cat "$D/flags")"; S=""; [ -f "$D/small" ] && S="--small"
python3 "$D/kit/port.py" $S "$R/nntl" "$W/nntl/nntl" || exit 99
mkdir -p "$W/x/a/b/c"
clang++-18 $F $X -include "$D/kit/msvc_compat.h" -I"$D/kit/a/b/c" -I"$D/kit" -I"$W/nntl" -c "$D/demo.cpp" -o "$W/d.o" 2>"$W/log" || { grep error "$W/log" | cut -c1-300 | head -20; exit 98; }
clang++-18 -std=c++17 -O1 -w -I"$D/kit" -c "$D/kit/win.cpp" -o "$W/w.o" && clang++-18 -std=c++17 -O1 -w -c "$D/kit/blas.cpp" -o "$W/b.o" || exit 97
clang++-18 -pthread $X "$W/d.o" "$W/w.o" "$W/b.o" -o "$W/demo" || exit 96
cd "$W"; timeout 120 ./demo; rc=$?; echo "exit $rc"; exit $rc
