"""C34: the command line of blogc means what blogc(1) says, in any order and spelling, or is refused."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib  # noqa: E402

PID = 'C34'
COUNT = {'quick': 8000, 'thorough': 250000}
RULE = ('random command lines of blogc in all the documented forms (entry, listing, listing entries, list of files on standard input, -p, -o, '
        '-d, -D, values joined to the option or in the next argument, any order, -D given twice), half of them with one mistake (name of a '
        'variable that is not allowed, no "=", invalid UTF-8, unknown option, missing or unreadable source or template, wrong number of '
        'sources, no template): the accepted ones must give exactly the output predicted from the abstract command, the refused ones must exit '
        'with an error and a message, print nothing on standard output and leave the output file as it was; distinct = different arguments')
MIN_DISTINCT = 6000
ASSUMPTIONS = ['options without the value they need, at the end of the command line, are not used: blogc(1) does not say what they mean']
NAMES = ['A', 'AB', 'A_B', 'Z', 'A9', 'X0_', 'TITLE', 'LONG_NAME_2X', 'B__', 'Q' * 60]
GOODTAIL = 'AZMQ09_5'
NEAR = '@[`/:^.,-{é\u00a0$;&|(~!%*?"\'\\ az\t\n\x01\x7f'
VALUES = ['x', '', 'a b', '=', '=x', 'a=b=c', 'é☃😀', '-l', '-', '--', '{{ A }}', "it's", '"q"', 'a\\b', 'two\nlines', ' lead', 'trail ', '%s%n', '#c', 'long ' * 300]
TITLES = ['one', 'two words', 'é☃', '<b>', 'a=b', '100%', '{{ A }}', '-D A=x']
MISTAKES = ['name', 'name', 'name', 'name', 'no =', 'utf8', 'option', 'option', 'no source', 'many', 'gone', 'directory', 'no template', 'template gone',
            'entry gone', 'empty name', 'bad source', 'bad template']


def gen(rng, i, tier):
    r = rng
    listing = r.random() < .5
    stdin = r.random() < .3
    n = r.choice([0, 1, 1, 2, 4]) if listing else 1
    src = []
    for k in range(n):
        v = {'TITLE': r.choice(TITLES)}
        if r.random() < .3:
            v[r.choice(NAMES[:6])] = r.choice(TITLES)
        src.append(v)
    entries = [r.choice(['', {'TITLE': r.choice(TITLES)}, {'A': r.choice(TITLES)}]) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))] if listing or r.random() < .1 else []
    conf = [[r.choice(NAMES), r.choice(VALUES)] for _ in range(r.choice([0, 1, 2, 3, 6]))]
    p = None
    if r.random() < .3:
        p = r.choice(NAMES + (conf and [conf[0][0]] * 8))
    out = r.choice([None, '-', 'out', 'out.html', 'd/e/out', './out', 'ünï c'])
    return {'listing': listing, 'stdin': stdin, 'src': src, 'entries': entries, 'conf': conf, 'print': p, 'debug': r.random() < .15, 'out': out,
            'cmdline': r.randrange(0, n + 1) if stdin else n, 'mistake': r.choice(MISTAKES) if r.random() < .5 else None, 'exists': r.random() < .5,
            'seed': r.randrange(1 << 40), 'info': r.choice(['-h', '-v']) if r.random() < .04 else None}


def source(v):
    return ''.join('%s: %s\n' % kv for kv in v.items()) + '-----\nbody\n'


TMPL = ('<' + '|'.join('{{ %s }}' % n for n in NAMES) + '>{% block entry %}E(' + '|'.join('{{ %s }}' % n for n in NAMES[:7]) + ')\n{% endblock %}'
        + '{% block listing_entry %}F({{ TITLE }}|{{ A }})\n{% endblock %}{% block listing %}L(' + '|'.join('{{ %s }}' % n for n in NAMES[:7])
        + ')\n{% endblock %}{% block listing_entry %}G({{ TITLE }}|{{ A }})\n{% endblock %}.\n')


def expected(case):
    conf = dict((k, v) for k, v in case['conf'])

    def val(n, local=None):
        if local and n in local:
            return local[n]
        return conf.get(n, '')
    out = '<' + '|'.join(val(n) for n in NAMES) + '>'
    if not case['listing']:
        out += 'E(' + '|'.join(val(n, case['src'][0]) for n in NAMES[:7]) + ')\n'
    else:
        def le(k, c):
            if k < len(case['entries']) and case['entries'][k] != '':
                e = case['entries'][k]
                return '%s(%s|%s)\n' % (c, val('TITLE', e), val('A', e))
            return ''
        out += le(0, 'F')
        for v in case['src']:
            out += 'L(' + '|'.join(val(n, v) for n in NAMES[:7]) + ')\n'
        out += le(1, 'G')
    return out + '.\n'


def run_case(ctx, case):
    import random
    r = random.Random(case['seed'])
    res = vlib.Res()
    d = ctx.fresh()
    files = ['s%d.txt' % k if k else r.choice(['s0.txt', 's p/é.md', '=', 'a=b', '#s']) for k in range(len(case['src']))]
    if case['stdin'] and case['cmdline'] == 0 and files:
        files[0] = 's0.txt'
    for f, v in zip(files, case['src']):
        put(d, f, source(v))
    enames = []
    for k, v in enumerate(case['entries']):
        if v == '':
            enames.append('')
        else:
            enames.append('e%d.txt' % k)
            put(d, enames[-1], source(v))
    tname = r.choice(['t.tmpl', 'tpl/é t', 't=x'])
    put(d, tname, TMPL)
    m = case['mistake']
    words = []
    conf = [list(kv) for kv in case['conf']]
    raw = []
    if m == 'name':
        c = r.choice(NEAR)
        name = r.choice(['%s', '%sA', 'A%s', 'A%sB', 'AB0%s', 'A_%s1', 'A9%s', 'AAAAAAAAAAAAAAAAAAAAAAA%s']) % c
        if r.random() < .2:
            name = r.choice(['a', '1', '_', '_A', '9A', 'é', ' A', 'A ', 'title', 'TITLe', 'tITLE'])
        raw.append((name + '=' + r.choice(VALUES)).encode('utf-8'))
        words = [b'-D']
    elif m == 'empty name':
        raw.append(b'=' + r.choice(['x', '', '=']).encode())
        words = [b'-D']
    elif m == 'no =':
        raw.append(r.choice(['A', 'TITLE', 'A:b', 'A b', 'A_B', 'a', 'é']).encode())
        words = [b'-D']
    elif m == 'utf8':
        b = r.choice([b'\xff', b'\xc0\x80', b'\xed\xa0\x80', b'\xe9', b'\xf4\x90\x80\x80', b'\x80', b'\xe2\x98'])
        raw.append(r.choice([b'A=%s', b'A=x%s', b'A=%sx', b'A%s=x', b'TITLE=\xc3\xa9%s']) % b)
        words = [b'-D']
    opts = []           # groups of arguments which keep their order

    def opt(letter, value):
        value = value if isinstance(value, bytes) else value.encode()
        if value and r.random() < .4:
            return [b'-' + letter + value]
        return [b'-' + letter, value]
    ds = [opt(b'D', '%s=%s' % (k, v)) for k, v in conf]
    for x in raw:
        ds.insert(r.randrange(len(ds) + 1), opt(b'D', x))
    opts.append(ds)
    opts.append([opt(b'e', e) for e in enames])
    srcs = files[:case['cmdline']]
    rest = files[case['cmdline']:]
    if m == 'no source':
        if case['listing']:
            m = None
        else:
            srcs, rest = [], []
    elif m == 'many':
        if case['listing']:
            m = None
        else:
            put(d, 'more.txt', source({'TITLE': 'more'}))
            for _ in range(r.choice([1, 1, 3])):
                if case['stdin'] and r.random() < .5:
                    rest = rest + ['more.txt']
                else:
                    srcs = srcs + ['more.txt']
    elif m in ('gone', 'directory', 'bad source'):
        if not files:
            m = None
        else:
            f = r.choice(files)
            os.unlink(os.path.join(d, f))
            if m == 'directory':
                os.mkdir(os.path.join(d, f))
            elif m == 'bad source':
                put(d, f, r.choice(['', 'title: x\n---\nx\n', 'A-B: x\n---\nx\n']))
            words = [f.encode()]
    elif m == 'entry gone':
        gone = [e for e in enames if e]
        if not gone or not case['listing']:
            m = None
        else:
            f = r.choice(gone)
            os.unlink(os.path.join(d, f))
            words = [f.encode()]
    elif m in ('template gone', 'bad template', 'no template'):
        if case['print'] is not None:
            m = None            # -p does not need a template
        elif m == 'template gone':
            os.unlink(os.path.join(d, tname))
            words = [tname.encode()]
        elif m == 'bad template':
            put(d, tname, r.choice(['{% block entry %}', '{{ A', '{% foo %}', '{{ a }}', '{% endblock %}']))
        else:
            words = [b'-t']
    opts.append([[f.encode()] for f in srcs])
    if m != 'no template' and not (case['print'] is not None and r.random() < .7):
        opts.append([opt(b't', tname)])
    if case['out'] is not None:
        opts.append([opt(b'o', case['out'])])
    if case['print'] is not None:
        opts.append([opt(b'p', case['print'])])
    if case['listing']:
        opts.append([[b'-l']])
    if case['stdin']:
        opts.append([[b'-i']])
    if case['debug']:
        opts.append([[b'-d']])
    if m == 'option':
        c = r.choice('abcfgjknqrsuwxyzABCEFGHIJKLMNOPQRSTUVWXYZ0123456789-?+:')
        o = ('-' + c + r.choice(['', '', '', 'x', 'A=b', '-help', 'elp', 'D'])).encode()
        opts.append([[o]])
        words = [o[:2]]
    # any order, and each group in its own
    cmd = []
    queues = [list(g) for g in opts if g]
    while queues:
        q = r.choice(queues)
        cmd += q.pop(0)
        queues = [g for g in queues if g]
    if case['info']:
        cmd = [case['info'].encode()] + cmd
    stdin = None
    if case['stdin']:
        lines = []
        for f in rest:
            if r.random() < .3:
                lines.append(r.choice(['', '# comment', '#', '#s0.txt', '\t']) if r.random() < .9 else '')
            lines.append(f)
        lines = [x for x in lines if x != '\t']
        stdin = (r.choice(['\n', '\r\n']).join(lines) + r.choice(['', '\n'])).encode()
    outp = None if case['out'] in (None, '-') else os.path.join(d, case['out'])
    if outp and case['exists']:
        put(d, case['out'], 'old')
    before = snap(d)
    p = vlib.run([ctx.asan('blogc')] + cmd, cwd=d, stdin=stdin, timeout=20)
    what = 'blogc %s' % b' '.join(repr(x.decode('utf-8', 'surrogateescape')).encode('utf-8', 'surrogateescape') for x in cmd).decode('utf-8', 'surrogateescape').encode('utf-8', 'backslashreplace').decode()
    what = what[:1500] + (' with %r on standard input' % stdin if stdin is not None else '') + '\nsources %r' % (case['src'],)
    if res.crash(p, what):
        return res
    res.n += 1
    res.sig(cmd, stdin, case['src'])
    after = snap(d)
    if case['info']:
        res.feats['help and version'] += 1
        want = b'usage:' if case['info'] == '-h' else b'blogc '
        if p.rc != 0 or want not in p.out:
            res.bad('information', '%s: exit %r, prints %r' % (what, p.rc, p.out[:200]))
        if after != before:
            res.bad('information', '%s changed files' % what)
        return res
    if m is not None:
        res.feats['refused: ' + m] += 1
        if p.rc == 0:
            res.bad('accepted', '%s (%s): exit 0, prints %r' % (what, m, p.out[:300]))
            return res
        if p.out and not p.out.startswith(b'usage: blogc [') or b'<' in p.out:
            res.bad('output of a refused command', '%s (%s) prints %r' % (what, m, p.out[:300]))
        elif not p.err.strip():
            res.bad('silent', '%s (%s): no message' % (what, m))
        elif after != before:
            res.bad('files', '%s (%s) changed files: %r, %r' % (what, m, before, after))
        for w in words:
            if w not in p.err:
                res.bad('message', '%s (%s): %r does not name %r' % (what, m, p.err[:500], w))
        if res.sample is None and len(what) < 400:
            res.sample = {'command': what, 'mistake': m, 'status': p.rc, 'message': p.err.decode('utf-8', 'replace')[-200:]}
        return res
    if case['print'] is not None:
        conf = dict((k, v) for k, v in case['conf'])
        n = case['print']
        v = conf.get(n)
        if not case['listing'] and n in case['src'][0]:
            v = case['src'][0][n]
        import re
        if v is None and re.search('_[0-9]+$', n):
            return res          # may be a shortened variable: C13
        res.feats['-p'] += 1
        want = b'' if v is None else v.encode() + b'\n'
        if p.out != want or (p.rc != 0) != (v is None):
            res.bad('-p', '%s: exit %r, prints %r instead of %r' % (what, p.rc, p.out[:400], want[:400]))
        elif after != before:
            res.bad('-p', '%s changed files: %r, %r' % (what, before, after))
        return res
    res.feats['rendered'] += 1
    want = expected(case).encode()
    if p.rc != 0:
        res.bad('refused', '%s: exit %r, %r' % (what, p.rc, p.err[-500:]))
        return res
    got = p.out
    if outp:
        if p.out:
            res.bad('standard output', '%s prints %r' % (what, p.out[:300]))
        try:
            with open(outp, 'rb') as fp:
                got = fp.read()
        except OSError as e:
            res.bad('output file', '%s: %s' % (what, e))
            return res
        k = os.path.normpath(case['out'])
        dirs = {os.path.normpath(k[:x]) for x in range(len(k)) if k[x] == '/'}
        strip = lambda s: {a: b for a, b in s.items() if a != k and a not in dirs}  # noqa: E731
        if strip(after) != strip(before):
            res.bad('files', '%s changed other files: %r, %r' % (what, before, after))
    elif after != before:
        res.bad('files', '%s changed files: %r, %r' % (what, before, after))
    if got != want:
        res.bad('output', '%s\ngives %r\ninstead of %r' % (what, got[:1500], want[:1500]))
    if case['debug'] and not p.err:
        res.bad('debug', '%s: nothing on standard error' % what)
    return res


def put(d, name, data):
    f = os.path.join(d, name)
    os.makedirs(os.path.dirname(f), exist_ok=True)
    with open(f, 'wb') as fp:
        fp.write(data.encode())


def snap(d):
    out = {}
    for w, ds, fs in os.walk(d):
        for x in ds + fs:
            f = os.path.join(w, x)
            s = os.lstat(f)
            out[os.path.relpath(f, d)] = (s.st_mode, s.st_size if x in fs else 0, s.st_ino, s.st_mtime_ns if x in fs else 0)
    return out


def shrink(case):
    for k in ('debug', 'exists', 'stdin'):
        if case[k]:
            yield dict(case, **{k: False, **({'cmdline': len(case['src'])} if k == 'stdin' else {})})
    for k in range(len(case['conf'])):
        yield dict(case, conf=case['conf'][:k] + case['conf'][k + 1:])
    for k in range(len(case['entries'])):
        yield dict(case, entries=case['entries'][:k] + case['entries'][k + 1:])
    if case['listing']:
        for k in range(len(case['src'])):
            s = case['src'][:k] + case['src'][k + 1:]
            yield dict(case, src=s, cmdline=min(case['cmdline'], len(s)))


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
