#!/bin/bash
# tryseed.sh ID [PROP...]: confirms a planted bug in a scratch copy: builds, passes the tests, demo fails with it and passes without; then runs checks against it there
V="$(cd "$(dirname "$0")/.." && pwd)"; I=$1; shift; T=/tmp/seedtry_$I; rm -rf $T; mkdir $T; cp -a ${NNTL_REPO:-/repo} $T/repo; D=$V/seeded/$I
( cd $T/repo && bash $D/demo.sh >$T/d0 2>&1 ); a=$?
( cd $T/repo && git apply $D/patch.diff ) || { echo "$I: patch does not apply"; exit 1; }
( cd $T/repo && bash $D/demo.sh >$T/d1 2>&1 ); b=$?
echo "$I demo clean=$a patched=$b: $(tail -2 $T/d1 | head -1 | cut -c1-150)"
[ $a = 0 ] || tail -5 $T/d0
[ -n "$NOBUILD" ] || { git -C /repo apply $D/patch.diff && ( cd /repo; bash /opt/vp/build.sh >$T/b 2>&1; r1=$?; bash /opt/vp/test.sh $T/t.json >/dev/null 2>&1; echo "build $r1 $(python3 -c "import json;d=json.load(open('$T/t.json'));print(len(d['passed']),d['failed'])")" ); git -C /repo checkout -- .; }
for p in "$@"; do ( cd $V; NNTL_REPO=$T/repo python3 check.py $p quick >$T/c_$p 2>&1; echo "  check $p rc $?: $(grep -E '^violation class|ERROR' $T/c_$p | cut -c1-180 | head -2) [$(tail -1 $T/c_$p | cut -c1-60)]" ); done
rm -rf $T
