#!/usr/bin/env python3
"""Development aid: mutate.py FILE OLD NEW CHECK... runs checks on a changed copy of the sources.
OLD must occur once (or OLD@@n picks the nth occurrence)."""
import os
import shutil
import subprocess
import sys
import tempfile
f, old, new, checks = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
old = old.encode().decode('unicode_escape') if '\\x' in old else old
n = None
if '@@' in old:
    old, n = old.rsplit('@@', 1)
    n = int(n)
d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
try:
    shutil.copytree('/repo/src', d + '/src')
    p = d + '/src/' + f
    s = open(p).read()
    c = s.count(old)
    if (n is None and c != 1) or c == 0:
        sys.exit('%d occurrences' % c)
    if n is None:
        s = s.replace(old, new)
    else:
        parts = s.split(old)
        s = old.join(parts[:n]) + new + old.join(parts[n:])
    open(p, 'w').write(s)
    for c in checks:
        r = subprocess.run(['python3', '/verif/checks/%s.py' % c], env=dict(os.environ, VERIF_REPO=d, VERIF_NOSHRINK='1'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd='/verif')
        t = r.stdout.decode('utf-8', 'replace')
        print(c, 'exit', r.returncode, '| ' + ' / '.join(l[:200] for l in t.splitlines() if l.startswith('---'))[:600])
        if r.returncode not in (0, 1):
            print(t[-1500:])
finally:
    shutil.rmtree(d)
