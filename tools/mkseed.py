#!/usr/bin/env python3
"""mkseed.py ID PROP FILE 'needs' 'breaks' < old/new text separated by lines '=====' (several edits separated by '#####', each may start with '@file')"""
import sys, os, subprocess, json, shutil
i, prop, file, needs, breaks = sys.argv[1:6]; V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'); d = '%s/seeded/%s' % (V, i); os.makedirs(d, exist_ok=True)
t = '/tmp/mkseed_%s' % i; shutil.rmtree(t, ignore_errors=True); subprocess.check_call(['git', 'clone', '-q', os.environ.get('NNTL_REPO', '/repo'), t])
for part in sys.stdin.read().split('#####\n'):
    f = file
    if part.startswith('@'): h, part = part.split('\n', 1); f = h[1:].strip()
    a, b = part.split('=====\n'); p = t + '/' + f; s = open(p, 'rb').read(); crlf = b'\r\n' in s
    e = lambda x: x.rstrip('\n').encode('latin-1').replace(b'\n', b'\r\n' if crlf else b'\n')
    if s.count(e(a)) != 1: print('edit of %s matches %d times' % (f, s.count(e(a)))); sys.exit(1)
    open(p, 'wb').write(s.replace(e(a), e(b)))
open(d + '/patch.diff', 'wb').write(subprocess.check_output(['git', '-C', t, 'diff', '--binary'])); json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1); shutil.rmtree(t)
