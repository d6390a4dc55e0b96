#!/usr/bin/env python3
"""Development aid: automut.py SLOT SEED COUNT FILE CHECK...   (FILE relative to src/)
Makes COUNT random small changes to FILE; those that compile and pass the project's tests are run against the checks in order until one
reports a violation.  Prints what no check saw.  Works in copies below /tmp/am/SLOT."""
import os
import random
import re
import shutil
import subprocess
import sys
slot, seed, count, f, checks = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5:]
top = '/tmp/am/' + slot
repo, verif = top + '/repo', top + '/verif'
os.makedirs(top, exist_ok=True)
LOG = open('/tmp/am/%s.log' % slot, 'a')


def say(*a):
    s = ' '.join(str(x) for x in a)
    print(s, flush=True)
    LOG.write(s + '\n')
    LOG.flush()


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


if not os.path.exists(repo):
    sh('mkdir -p %s && cd /repo && git archive HEAD | tar -x -C %s && cp version.cmake %s/' % (repo, repo, repo))
    sh('cd %s && CC=gcc cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON -DBUILD_BLOGC_GIT_RECEIVER=ON -DBUILD_BLOGC_MAKE=ON '
       '-DBUILD_BLOGC_RUNSERVER=ON' % repo)
sh('cd /repo && git archive HEAD src | tar -x -m -C %s' % repo)
sh('rsync -a --delete --exclude .build --exclude .git --exclude replay /verif/ %s/ || (mkdir -p %s && cd /verif && tar -c --exclude=.build --exclude=.git --exclude=replay . | tar -x -C %s)' % (verif, verif, verif))
ENV = dict(os.environ, VERIF_REPO=repo, VERIF_NOSHRINK='1', VERIF_MAXVIOL='1', LC_ALL='C.UTF-8', VERIF_TIER='quick')


def tests():
    r = sh('ninja -C _build > /tmp/am/%s.ninja 2>&1 || exit 9; timeout 120 ctest --test-dir _build -j6 --timeout 60' % slot, cwd=repo, env=ENV)
    if r.returncode == 9:
        return 'build'
    return frozenset(re.findall(r'^\s+\d+ - (\S+)', r.stdout.decode('utf-8', 'replace'), re.M))


src = repo + '/src/' + f
orig = open(src).read()
base = tests()
say('#', f, 'tests that fail anyway:', sorted(base))


def mutants(text):
    out = []
    lines = text.split('\n')
    start = next((k for k, l in enumerate(lines) if l.startswith('{')), 0)
    pos = 0
    for k, l in enumerate(lines):
        p = pos
        pos += len(l) + 1
        if k < start or l.lstrip().startswith(('//', '#', '*', '/*')):
            continue

        def add(a, b, new):
            out.append((k + 1, p + a, p + b, new))
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + '_' * (len(m.group(0)) - 2) + '"', l)
        for m in re.finditer(r' (<|>|<=|>=|==|!=|&&|\|\|) ', code):
            for n in {'<': ['<=', '>='], '>': ['>=', '<='], '<=': ['<', '>'], '>=': ['>', '<'], '==': ['!='], '!=': ['=='], '&&': ['||'], '||': ['&&']}[m.group(1)]:
                add(m.start(1), m.end(1), n)
        for m in re.finditer(r' ([+-]) (\d+)', code):
            add(m.start(), m.end(), '')
            add(m.start(1), m.end(1), '-' if m.group(1) == '+' else '+')
            add(m.start(2), m.end(2), str(int(m.group(2)) + 1))
        for m in re.finditer(r'(?<![\w.\'])(\d+)(?![\w.])', code):
            n = int(m.group(1))
            add(m.start(), m.end(), str(n + 1))
            if n:
                add(m.start(), m.end(), str(n - 1))
        for m in re.finditer(r'\b(true|false)\b', code):
            add(m.start(), m.end(), 'false' if m.group(1) == 'true' else 'true')
        for m in re.finditer(r"'(\\.|[^'\\])'", code):
            add(m.start(), m.end(), "'\\x01'")
        m = re.match(r'^(\s+)(break|continue|return[^;]*|goto \w+);$', code)
        if m:
            if m.group(2) in ('break', 'continue') or m.group(2).startswith('goto'):
                add(len(m.group(1)), len(code), ';')
        elif re.match(r'^\s+[\w>.\[\]*()-]+(\s*[-+|&]?=\s*[^;]*|\(.*\)|\+\+|--);$', code) and not re.match(r'^\s+(const |char |int |size_t |bool |bc_\w+_t |struct |long |unsigned |FILE )', code):
            add(len(code) - len(code.lstrip()), len(code), ';')
        m = re.match(r'^(\s+(?:\} )?(?:else )?(?:if|while) \()(.*)(\) ?\{?)$', code)
        if m and l[m.start(2):m.end(2)].count('(') == l[m.start(2):m.end(2)].count(')'):
            c = l[m.start(2):m.end(2)]
            add(m.start(2), m.end(2), '!(' + c + ')')
            if 'if (' in m.group(1):
                add(m.start(2), m.end(2), '(' + c + ') && 0')
                add(m.start(2), m.end(2), '(' + c + ') || 1')
        for m in re.finditer(r'\(([^()&|]+|[^()&|]*\([^()]*\)[^()&|]*) (&&|\|\|) ', code):
            add(m.start(1), m.end(1), '1' if m.group(2) == '&&' else '0')
        for m in re.finditer(r' (&&|\|\|) ((?:[^()&|]|\([^()]*\))+)\)', code):
            add(m.start(2), m.end(2), '1' if m.group(1) == '&&' else '0')
        for m in re.finditer(r'"([^"\\%]{1,30})"', l):
            add(m.start(1), m.end(1), 'X' + m.group(1)[1:])
    return out


r = random.Random(seed)
ms = mutants(orig)
r.shuffle(ms)
say('#', len(ms), 'possible')
stat = {'build': 0, 'tests': 0, 'caught': 0, 'missed': 0}
try:
    for line, a, b, new in ms[:count]:
        with open(src, 'w') as fp:
            fp.write(orig[:a] + new + orig[b:])
        t = tests()
        if t == 'build':
            stat['build'] += 1
            continue
        if t - base:
            stat['tests'] += 1
            continue
        what = '%s:%d: %r -> %r   | %s' % (f, line, orig[a:b], new, orig.split('\n')[line - 1].strip())
        hit = None
        for c in checks:
            p = sh('timeout 600 python3 checks/%s.py' % c, cwd=verif, env=ENV)
            out = p.stdout.decode('utf-8', 'replace')
            if p.returncode == 1 and 'VIOLATION property' in out:
                m = re.search(r'^--- .*', out, re.M)
                hit = c + ' ' + (m.group(0)[:100] if m else '')
                break
            if p.returncode not in (0, 1):
                hit = c + ' no answer: exit %d %s' % (p.returncode, out[-200:])
        if hit and 'no answer' not in hit:
            stat['caught'] += 1
            say('caught', what, '|', hit)
        else:
            stat['missed'] += 1
            say('MISSED', what, hit or '')
finally:
    with open(src, 'w') as fp:
        fp.write(orig)
    say('#', f, stat)
