"""C13: blogc -p prints exactly the value a template would see."""
import datetime
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib  # noqa: E402

PID = 'C13'
COUNT = {'quick': 900, 'thorough': 15000}
RULE = ('random sources, -D options, entry and listing mode, with and without filters and pages; for some 12 names per case '
        '(defined, undefined, prefixes and extensions of defined ones, truncated, formatted, derived, set by the program, invalid) '
        'the output of -p is compared with a template that shows the same variable and, where the value is given by the case, '
        'with that value; distinct = different (arguments, name)')
MIN_DISTINCT = 1500
ASSUMPTIONS = ['variables that depend on the clock or on resource usage are only compared for being defined']
DERIVED = ['FILENAME', 'CONTENT', 'RAW_CONTENT', 'EXCERPT', 'FIRST_HEADER', 'DESCRIPTION', 'TOCTREE', 'BLOGC_VERSION',
           'BLOGC_SYSINFO_HOSTNAME', 'BLOGC_SYSINFO_USERNAME', 'BLOGC_SYSINFO_INSIDE_DOCKER', 'CURRENT_PAGE', 'FIRST_PAGE',
           'LAST_PAGE', 'NEXT_PAGE', 'PREVIOUS_PAGE', 'DATE_FIRST', 'DATE_LAST', 'FILENAME_FIRST', 'FILENAME_LAST']
CHANGING = ['BLOGC_SYSINFO_DATETIME', 'BLOGC_RUSAGE_CPU_TIME', 'BLOGC_RUSAGE_MEMORY']
POOL = ['TITLE', 'TITLE_1', 'TITLE_12', 'A', 'AB', 'ABC', 'A_B', 'DATE', 'DATE_FORMATTED', 'TAGS', 'X_FORMATTED', 'X', 'LONG', 'EMPTY',
        'DATE_X', 'DATEX', 'A_0', 'N_2_3', 'N', 'N_2', 'DATE_FORMAT', 'FIRST_HEADER', 'DESCRIPTION', 'TOCTREE']
FORMATS = ['%Y', '%d/%m/%Y %H:%M', '%%', 'é %j', '%b', '%Y-%m-%dT%H:%M:%SZ', 'plain']


def text(r):
    x = r.random()
    if x < .5:
        return r.choice(['value', 'a value with words', 'é☃😀 text', '<b>&amp;</b>', '%s%n %d', '0', '1', '"quoted"', 'back\\slash', '{{ A }}', '{% if %}'])
    if x < .6:
        return 'long ' * 400 + 'end'
    return ''.join(r.choice('abé☃😀 x') for _ in range(r.choice([1, 3, 12, 13]))).strip() or 'y'


def gen(rng, i, tier):
    r = rng
    listing = r.random() < .4
    n = r.choice([0, 1, 2, 5]) if listing else 1
    withdate = r.random() < .6
    src = []
    for k in range(n):
        v = {}
        for name in r.sample(POOL, r.choice([0, 1, 3, 6])):
            if not name.startswith('DATE'):
                v[name] = text(r)
        if r.random() < .3:
            v['EMPTY'] = ''
        if withdate:
            v['DATE'] = '20%02d-%02d-%02d %02d:%02d:%02d' % tuple(r.randrange(1, m) for m in (30, 13, 29, 24, 60, 60))
        if r.random() < .5:
            v['TAGS'] = r.choice(['t1', 't1 t2', 't2'])
        src.append(v)
    conf = {}
    for name in r.sample(POOL, r.choice([0, 1, 3, 6])):
        conf[name] = text(r)
    conf.pop('DATE', None)
    conf.pop('DATE_FORMATTED', None)
    if r.random() < .5:
        conf['DATE_FORMAT'] = r.choice(FORMATS)
    for name, vals, p in (('FILTER_PAGE', ['1', '2', '0', '9'], .4), ('FILTER_PER_PAGE', ['1', '2', '10', '0'], .4), ('FILTER_TAG', ['t1', 't2', 'tx'], .3),
                          ('FILTER_SORT', ['1', 'no'], .2), ('FILTER_REVERSE', ['1'], .2), ('TOCTREE_MAXDEPTH', ['0', '1', '-1'], .3)):
        if r.random() < p and not (name == 'FILTER_SORT' and not withdate):
            conf[name] = r.choice(vals)
    names = set()
    known = sorted(set(conf) | {k for v in src for k in v}) or ['A']
    for _ in range(r.choice([6, 12])):
        x = r.random()
        b = r.choice(known) if x < .6 else r.choice(DERIVED) if x < .8 else r.choice(POOL)
        y = r.random()
        if y < .35:
            pass
        elif y < .65:
            b += '_' + r.choice(['1', '2', '3', '12', '013', '0', '00', '99999', '9223372036854775808', '99999999999999999999999'])
        elif y < .75:
            b += '_FORMATTED'
        elif y < .8:
            b += '_FORMATTED_' + r.choice(['4', '1', '0'])
        elif y < .85:
            b += r.choice(['X', '_', '_X', '2', '_1_', '__1', '_1_1'])
        elif y < .9 and len(b) > 1:
            b = b[:-1]
        elif y < .95:
            b = r.choice(['DATE', 'DATE_FIRST', 'DATE_LAST']) + '_FORMATTED' + r.choice(['', '_4', '_1'])
        else:
            b = r.choice(['FOREACH_ITEM', 'FOREACH_VALUE', 'FOREACH_ITEM_2', 'UNKNOWN', 'Z_1'] + CHANGING)
        names.add(b)
    return {'listing': listing, 'src': src, 'conf': conf, 'names': sorted(names), 'joined': r.random() < .3, 'stdin': r.random() < .2,
            'body': r.choice(['text\n', '# Header\n\ntext *em* é\n\n## Sub\n\n...\n\nmore\n', '> quote\n\n- a\n- b\n', '\n', '# H <x>\n']),
            'invalid': r.random() < .2, 'le': listing and r.random() < .3}


def fmt(date, f):
    try:
        d = datetime.datetime.strptime(date, '%Y-%m-%d %H:%M:%S')
    except ValueError:
        return date
    return re.sub('%.', lambda m: d.strftime(m.group(0)), f)


def expected(name, conf, local):
    """('value', text or None), or None when the case does not give it"""
    def get(n):
        if n in local:
            return local[n]
        if n in DERIVED or n in CHANGING:
            return get          # unknown
        return conf.get(n)
    v = get(name)
    if v is get:
        return None
    if v is not None:
        return ('value', v)
    m = re.fullmatch('(.*)_([0-9]+)', name, re.S)
    base, n = (m.group(1), int(m.group(2))) if m else (name, 0)
    f = base.endswith('_FORMATTED')
    if f:
        base = base[:-10]
    v = get(base)
    if v is get:
        return None
    if v is None:
        return ('value', None)
    if f and name.startswith('DATE_'):
        ft = get('DATE_FORMAT')
        if ft is not None and base != 'DATE':
            return None
        if ft is not None:
            if ft not in FORMATS:
                return None
            v = fmt(v, ft)
    if n > 0:
        v = v[:n]
    return ('value', v)


def run_case(ctx, case):
    res = vlib.Res()
    d = ctx.fresh()
    files = []
    for k, v in enumerate(case['src']):
        with open('%s/s%d.txt' % (d, k), 'w') as fp:
            fp.write(''.join('%s: %s\n' % kv for kv in v.items()) + '-----\n' + case['body'])
        files.append('s%d.txt' % k)
    with open(d + '/le.txt', 'w') as fp:
        fp.write('TITLE: entry\nA: entry\nLE: entry\n---\nbody\n')
    args = [ctx.asan('blogc')]
    for k, v in case['conf'].items():
        args += ['-D%s=%s' % (k, v)] if case['joined'] else ['-D', '%s=%s' % (k, v)]
    if case['listing']:
        args.append('-l')
    if case['le']:
        args += ['-e', 'le.txt']
    stdin = None
    if case['stdin']:
        args.append('-i')
        stdin = '\n'.join(files).encode() + b'\n'
    else:
        args += files
    block = ('', '') if case['listing'] else ('{% block entry %}', '{% endblock %}')
    filtered = 'FILTER_TAG' in case['conf'] or 'FILTER_PAGE' in case['conf']
    local = {} if case['listing'] else None if filtered else case['src'][0]
    for name in case['names']:
        with open(d + '/t.tmpl', 'w') as fp:
            fp.write(block[0] + '{% ifdef ' + name + ' %}[{{ ' + name + ' }}]{% else %}{% endif %}' + block[1])
        t = vlib.run(args + ['-t', 't.tmpl'], cwd=d, stdin=stdin)
        p = vlib.run(args + (['-p' + name] if case['joined'] else ['-p', name]), cwd=d, stdin=stdin)
        if res.crash(t, 'template ' + name) or res.crash(p, '-p ' + name):
            return res
        what = 'blogc %s -p %s (sources %r)' % (' '.join(map(repr, args[1:]))[:1500], name, str(case['src'])[:700])
        res.n += 1
        res.sig(args[1:], case['src'], case['body'], name)
        if t.rc != 0:
            res.bad('template refused', '%s\n%r' % (what, t.err[-300:]))
            return res
        if t.out == b'':
            res.feats['undefined'] += 1
            if p.rc == 0 or p.out:
                res.bad('undefined', '%s: a template does not know it, but -p exits %r and prints %r' % (what, p.rc, p.out[:300]))
                return res
            if not p.err.strip():
                res.bad('no message', what)
                return res
            shown = None
        else:
            shown = t.out[1:-1]
            res.feats['defined'] += 1
            changing = any(c in name for c in CHANGING)
            if p.rc != 0 or (p.out != shown + b'\n' and not changing) or (changing and not p.out.endswith(b'\n')):
                res.bad('value', '%s: exit %r, prints %r instead of %r' % (what, p.rc, p.out[:400], shown[:400]))
                return res
        if local is not None:
            e = expected(name, case['conf'], local)
            if e is not None:
                res.feats['value given by the case'] += 1
                want = None if e[1] is None else e[1].encode()
                got = p.out[:-1] if p.rc == 0 else None
                if want != got:
                    res.bad('expected value', '%s prints %r instead of %r' % (what, got and got[:400], want and want[:400]))
                    return res
    if case['invalid']:
        for name in ('', 'lower', '-', 'A B', 'é', ' TITLE', 'TITLE ', '_1', '_', '1', '_FORMATTED', '_FORMATTED_1', '_FORMATTED_FORMATTED'):
            if name == '':
                a = args + ['-p', name]
            else:
                a = args + ['-p', name]
            p = vlib.run(a, cwd=d, stdin=stdin)
            res.n += 1
            if res.crash(p, '-p %r' % name):
                return res
            if p.rc == 0 or p.out:
                res.bad('invalid name', '-p %r: exit %r, %r' % (name, p.rc, p.out[:200]))
                return res
            res.feats['invalid name'] += 1
    if res.sample is None and case['names']:
        res.sample = {'arguments': [a[:60] for a in args[1:]][:8], 'names': case['names'][:6]}
    return res


def shrink(case):
    for n in case['names']:
        if len(case['names']) > 1:
            yield dict(case, names=[n], invalid=False)
    for k in case['conf']:
        yield dict(case, conf={a: b for a, b in case['conf'].items() if a != k})
    for i, v in enumerate(case['src']):
        for k in v:
            if k != 'DATE':
                s = list(case['src'])
                s[i] = {a: b for a, b in v.items() if a != k}
                yield dict(case, src=s)


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
