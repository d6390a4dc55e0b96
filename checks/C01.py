"""C01: blogc never corrupts memory, crashes or hangs, whatever it is given."""
import hashlib
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import gencontent  # noqa: E402
import tmpl  # noqa: E402
import vlib  # noqa: E402

PID = 'C01'
NF = {'quick': 16, 'thorough': 64}
COUNT = {'quick': 16 + 1100, 'thorough': 64 + 60000 + 4000}
VARIANTS = ('asan', 'plain', 'fuzz', 'msan')
HARNESSES = {'fuzz': ['fuzz_blogc']}
RULE = ('(1) libFuzzer on the content, source, template+renderer and helper functions, from generated corpora; (2) the real '
        'program on sources, templates, lists and command lines made by cutting, splicing and changing well-formed ones; '
        '(3) inputs of 20 kB made by repeating or nesting one fragment, whose processor time is bounded; distinct = inputs that '
        'reached new code in (1), different inputs in (2) and (3)')
MIN_DISTINCT = 2000
ASSUMPTIONS = ['memory is not exhausted; leaks at exit are not violations', 'nesting of up to 300 levels (see the known finding)']
FRAGS = ['TITLE: x\n', 'DATE: 2010-01-01\n', 'KEY:', ': v\n', '---\n', '-----\n', '-', '\n', '\r\n', '\r', '\n\n', '\t', ' ', '    ', '# ', '####### h',
         '> ', '>> ', '- ', '* ', '+ ', '1. ', '10.', '99999999999999999999. ', '...', '..', '***', '* * *', '**', '*', '_', '__', '`', '``', '[', ']', '](', ')',
         '![', '[[', ']]', '\\', '<', '<div>', '&', '"', "'", '--', '---', 'é', '日本', '😀', '\ufeff', '\x00', '\x0b', '\x0c', '{{', '}}', '{%', '%}', '{%-', '-%}',
         '{{ TITLE }}', '{{ A_5 }}', '{{ DATE_FORMATTED }}', '{% block entry %}', '{% block listing %}', '{% block listing_once %}', '{% block listing_empty %}',
         '{% block listing_entry %}', '{% endblock %}', '{% if A == "x" %}', '{% ifdef A %}', '{% ifndef A %}', '{% else %}', '{% endif %}', '{% foreach TAGS %}',
         '{{ FOREACH_ITEM }}', '{{ FOREACH_VALUE }}', '{% endforeach %}', '{% if A >= B_2 %}', '"', 'TAGS: a b c\n', 'TOCTREE_MAXDEPTH: 2\n', 'A: b\n', 'word ', 'text\n']
LONG = ['A' * 1500, ' ' * 1030, '#' * 300, '>' * 250, '*' * 500, '[' * 200, '-' * 1025, 'é' * 700, '\n' * 400, '_1' * 400, '9' * 400, '\\' * 401]


def doc(r):
    b = gencontent.document(r, r.choice([0, 1, 2, 4]))
    src, _ = gencontent.join(b)
    v = tmpl.variables(r, .4)
    s = ''.join('%s: %s\n' % kv for kv in v.items()) or 'TITLE: x\n'
    s = (s + '-----\n' + src + r.choice(['\n', ''])).replace('\n', r.choice(gencontent.EOLS))
    return s


def template(r):
    nodes = tmpl.normalise(tmpl.body(r, 3, (False, False)))
    s, _ = tmpl.write(nodes, r)
    return s


def mutate(r, s, pool):
    """Cuts, repeats, swaps and inserts."""
    for _ in range(r.choice([1, 1, 2, 3, 8])):
        k = r.random()
        p = r.randrange(len(s) + 1)
        q = min(len(s), p + r.choice([1, 1, 2, 5, 30]))
        if k < .25:
            s = s[:p]
        elif k < .45:
            s = s[:p] + s[q:]
        elif k < .75:
            s = s[:p] + r.choice(FRAGS) + s[p:]
        elif k < .8:
            s = s[:p] + r.choice(LONG) + s[p:]
        elif k < .9:
            s = s[:p] + s[p:q] * r.choice([2, 3, 20]) + s[q:]
        elif k < .97:
            o = r.choice(pool)
            x = r.randrange(len(o) + 1)
            s = s[:p] + o[x:x + r.choice([3, 30, 300])] + s[q:]
        else:
            s = ''.join(r.choice(FRAGS) for _ in range(r.choice([1, 3, 10, 40])))
        if len(s) > 12000:
            s = s[:12000]
    return s


def gen(rng, i, tier):
    if i < NF[tier]:
        return {'kind': 'fuzz', 'mode': 'crso'[i % 4], 'seed': rng.randrange(1 << 31), 'runs': 60000 if tier == 'quick' else 4000000,
                'len': rng.choice([60, 300, 1500]) if i >= 4 else 400}
    if i % 8 == 5 and i < NF[tier] + (1600 if tier == 'quick' else 32000):
        return {'kind': 'big', 'seed': rng.randrange(1 << 40)}
    return {'kind': 'mutants', 'seed': rng.randrange(1 << 40)}


def corpus(r, mode, d):
    os.makedirs(d)
    for k in range(60):
        if mode == 'c':
            s = gencontent.join(gencontent.document(r))[0].encode()
        elif mode == 's':
            s = doc(r).encode('utf-8', 'surrogateescape')
        elif mode == 'r':
            s = bytes([r.randrange(64)]) + template(r).encode()
            for _ in range(r.choice([0, 1, 3])):
                s += b'\xff' + doc(r).encode()
        else:
            s = r.choice(['2010-02-03 04:05:06|%Y é', ' # a\n b.txt \n\n#', 'A_2', 'DATE_FORMATTED', 'FOREACH_ITEM_3', 'FOREACH_VALUE_1', 'a <b> & "c"\n d']).encode()
        with open('%s/%d' % (d, k), 'wb') as fp:
            fp.write(s)


def fuzz(ctx, case, res):
    import random
    r = random.Random(case['seed'])
    d = ctx.fresh('fuzz')
    corpus(r, case['mode'], d + '/in')
    os.makedirs(d + '/out')
    with open(d + '/dict', 'w') as fp:
        for f in FRAGS:
            if '\0' not in f and f not in ('"',):
                fp.write('"%s"\n' % ''.join('\\x%02x' % b for b in f.encode()))
    exe = os.path.join(ctx.b['fuzz'], 'fuzz_blogc')
    p = vlib.run([exe, '-seed=%d' % (case['seed'] % 2 ** 31 or 1), '-runs=%d' % case['runs'], '-max_len=%d' % case['len'], '-dict=' + d + '/dict',
                  '-timeout=30', '-rss_limit_mb=3000', '-print_final_stats=1', '-detect_leaks=0', '-artifact_prefix=' + d + '/crash-', d + '/out', d + '/in'],
                 env=vlib.base_env(FUZZ_MODE=case['mode']), cwd=d, timeout=240 if case['runs'] < 10 ** 6 else 1800, retry=False)
    if p.timed_out:
        res.inconclusive += 1
        return
    bad = [f for f in os.listdir(d) if f.startswith('crash-')]
    if bad or p.rc != 0:
        data = b''
        if bad:
            with open(d + '/' + bad[0], 'rb') as fp:
                data = fp.read()
        t = p.err.decode('utf-8', 'replace')
        m = re.search('ERROR: (AddressSanitizer|libFuzzer): [^\n]*|runtime error: [^\n]*', t)
        s = vlib.sanitizer(p) or 'x'
        res.bad('crash: ' + s, 'fuzzing mode %s: %s\ninput %r\n%s' % (case['mode'], m.group(0) if m else 'exit %r' % p.rc, data[:2000],
                                                                     t[m.start():m.start() + 1500] if m else t[-1500:]))
        return
    m = re.search(rb'number_of_executed_units: (\d+)', p.err)
    res.n += int(m.group(1)) if m else 0
    res.feats['inputs fuzzed in mode ' + case['mode']] += int(m.group(1)) if m else 0
    m = re.findall(rb'cov: (\d+)', p.err)
    if m:
        res.feats['edges covered, mode %s, sum over runs' % case['mode']] += int(m[-1])
    for f in os.listdir(d + '/out'):
        res.sig(case['mode'], f)
    shutil.rmtree(d, ignore_errors=True)


def options(r, d):
    """A command line; the files exist."""
    a = []
    for _ in range(r.choice([0, 1, 1, 2, 4])):
        a += r.choice([['-D', 'A=b'], ['-DB=' + 'x' * r.choice([0, 5, 2000])], ['-D', 'FILTER_PAGE=' + r.choice(['1', '0', '-1', 'x', '9999999999999999999999', '2'])],
                       ['-D', 'FILTER_PER_PAGE=' + r.choice(['1', '0', '-1', '', '9223372036854775807', '2'])], ['-D', 'FILTER_SORT=1'], ['-D', 'FILTER_REVERSE=y'],
                       ['-D', 'FILTER_TAG=' + r.choice(['a', '', 'one', ' '])], ['-D', 'DATE_FORMAT=' + r.choice(['%Y', '%', '', '%' + 'Y' * 2000, '%E', '%Y' * 300])],
                       ['-D', r.choice(['', '=', 'a=b', 'A', 'A=', '1=2', '\xff=1', 'A\udcff=1', 'Aé=1', '_=1', 'A=\udcff'])], ['-d'], ['-D', 'TOCTREE_MAXDEPTH=' + r.choice(['1', 'x', '', '-5', '99999999999'])]])
    if r.random() < .1:
        a += r.choice([['-x'], ['-'], ['--help'], ['-h'], ['-v'], ['-D'], ['-e'], ['-t'], ['-o'], ['-p'], ['-k'], ['-m'], ['-Dx'], ['-l', '-l'], ['-oo', '-oo']])
    return a


def mutants(ctx, case, res):
    import random
    r = random.Random(case['seed'])
    d = ctx.fresh()
    pool = [doc(r), doc(r), template(r)]
    for k in range(12):
        srcs = []
        for j in range(r.choice([0, 1, 1, 1, 2, 4])):
            s = doc(r)
            if r.random() < .8:
                s = mutate(r, s, pool)
            b = s.encode('utf-8', 'surrogateescape')
            if r.random() < .05:
                b = b[:len(b) // 2] + bytes([r.randrange(256)]) + b[len(b) // 2:]
            name = 's%d.txt' % j
            with open(d + '/' + name, 'wb') as fp:
                fp.write(b)
            srcs.append(name)
        t = template(r)
        if r.random() < .7:
            t = mutate(r, t, pool)
        with open(d + '/t.tmpl', 'wb') as fp:
            fp.write(t.encode())
        a = options(r, d)
        stdin = None
        if r.random() < .25:
            lst = '\n'.join(srcs) + r.choice(['\n', '', '\n\n'])
            if r.random() < .6:
                lst = mutate(r, lst, [' # x\n', '\t\n', '\0', ' s0.txt\t\n'])
            stdin = lst.encode()
            srcs = srcs[:r.choice([0, 0, 1])]
            a.append('-i')
        if r.random() < .5:
            a.append('-l')
        if r.random() < .3 and os.path.exists(d + '/s0.txt'):
            a += ['-e', r.choice(['s0.txt', '', 'missing'])]
        x = r.random()
        if x < .8:
            a += ['-t', 't.tmpl']
        if x > .7:
            a += ['-p', r.choice(['CONTENT', 'TITLE', 'TOCTREE', 'A_3', '_1', '', 'DATE_FORMATTED', 'é', '_FORMATTED', 'EXCERPT_5'])]
        r.shuffle(srcs)
        a += srcs
        if r.random() < .05:
            a += r.choice([['missing.txt'], ['.'], [''], ['/dev/null']])
        p = vlib.run([(ctx.msan if k % 3 == 2 else ctx.asan)('blogc').encode()] + [z.encode('utf-8', 'surrogateescape') for z in a if '\0' not in z], cwd=d, stdin=stdin, timeout=20)
        res.n += 1
        res.sig(case['seed'], k)
        res.feats['exit %s' % p.rc] += 1
        if res.crash(p, 'blogc %r\nstdin %r\n%s' % (a, stdin, '\n'.join('%s: %r' % (f, open(d + '/' + f, 'rb').read()[:1500]) for f in srcs[:2] + ['t.tmpl']))):
            return
        if p.rc not in (0, 1, 2, 64, 65, 66, 78):
            res.bad('exit status', 'exit %r for %r: %r' % (p.rc, a, p.err[-300:]))
            return


def timed(cmd, d, stdin, cpu):
    """Runs with a limit of processor time, which the load of the machine does not change."""
    def pre():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 1))
    p = subprocess.Popen(cmd, cwd=d, stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=vlib.base_env(), preexec_fn=pre)
    try:
        _, err = p.communicate(stdin, timeout=600)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return -signal.SIGXCPU, b''
    return p.returncode, err


def big(ctx, case, res):
    import random
    r = random.Random(case['seed'])
    d = ctx.fresh()
    kind = r.choice(['content', 'content', 'content nest', 'content nest', 'source', 'template', 'template', 'list', 'value'])
    size = r.choice([5000, 20000])
    n = r.choice([1, 1, 2, 3])
    parts = [f for f in FRAGS if '\0' not in f]
    frag = ''.join(r.choice(parts) for _ in range(n))
    rep = frag * max(1, size // len(frag.encode()))
    with open(d + '/t.tmpl', 'w', newline='') as fp:
        fp.write('{% block entry %}{{ CONTENT }}{{ TOCTREE }}{% endblock %}{% block listing %}{{ CONTENT }}{% endblock %}' if kind != 'template' else
                 r.choice(['{% block entry %}', '', '{% block listing %}']) + rep + r.choice(['{% endblock %}', '']))
    stdin = b''
    body = 'TITLE: x\nTAGS: a b c\n---\n'
    if kind == 'content nest':
        lvl = r.choice([30, 100, 300])
        a, z = r.choice([('[', '](b)'), ('![', '](b)'), ('[[', ']]'), ('*', '*'), ('_*', '*_'), ('**_', '_**'), ('[![', '](b)](c)'), ('[a](', ')'), ('_[', '](b)_'),
                         ('`', '`'), ('> ', ''), ('>', ''), ('- ', ''), ('> - ', ''), ('[', ''), ('![', ''), ('\\[', ']'), ('*[', '*](b)'), ('[a ', ' b]'), ('(', ')'), ('"', '"')])
        body += a * lvl + r.choice(['a', '', ' a b ', 'a\n\nb']) + z * lvl + '\n'
        frag = a + z
    elif kind == 'content':
        # deep nesting in one line is the known finding
        if frag.count('>') * (size // len(frag.encode())) > 300 and '\n' not in frag and '\r' not in frag:
            rep = rep[:300]
        body += r.choice(['', 'text ', '# ', '- ', '    ', '> ']) + rep + r.choice(['', '\n', '*', ']', '\n\nlast\n'])
    elif kind == 'source':
        body = rep + ('\n' if r.random() < .5 else '') + body
    elif kind == 'value':
        body = ''.join('K%d: %s\n' % (k, frag.replace('\n', '').replace('\r', '')) for k in range(size // 20)) + 'T: ' + rep.replace('\n', ' ').replace('\r', ' ') + '\n' + body
    with open(d + '/s.txt', 'w', newline='') as fp:
        fp.write(body)
    args = ['-t', 't.tmpl']
    if kind == 'list':
        args += ['-l', '-i']
        stdin = (rep + '\ns.txt\n').encode() if r.random() < .5 else b's.txt\n' * 400
    else:
        args += ['s.txt'] + (['-l'] if r.random() < .3 else [])
    cpu = 20
    rc, err = timed([ctx.plain('blogc')] + args, d, stdin, cpu)
    res.n += 1
    res.sig(case['seed'])
    res.feats['big ' + kind] += 1
    what = 'blogc %s, %s of %r, file %r ...' % (' '.join(args), kind, frag, body[:200])
    if rc in (-signal.SIGXCPU, -signal.SIGKILL):
        res.bad('hang: ' + kind, 'more than %d s of processor time for %d bytes: %s' % (cpu, len(body), what))
        return
    if rc < 0:
        res.bad('crash: signal %d' % -rc, what)
        return
    p = vlib.run([ctx.asan('blogc')] + args, cwd=d, stdin=stdin, timeout=60)
    res.crash(p, what)


def deep(ctx, case, res):
    """The known finding: nesting without limit."""
    d = ctx.fresh()
    with open(d + '/s.txt', 'w') as fp:
        fp.write('TITLE: x\n---\n' + '>' * case['n'] + 'a\n')
    rc, _ = timed([ctx.plain('blogc'), '-p', 'CONTENT', 's.txt'], d, b'', 120)
    res.n += 1
    if rc == -signal.SIGSEGV:
        res.bad('stack overflow for %d nested blockquotes in one line' % case['n'], 'killed by signal 11')
    elif rc != 0:
        res.bad('deep', 'exit %r' % rc)


def run_case(ctx, case):
    res = vlib.Res()
    {'fuzz': fuzz, 'mutants': mutants, 'big': big, 'deep': deep}[case['kind']](ctx, case, res)
    if res.sample is None and case['kind'] != 'fuzz':
        res.sample = case
    return res


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
