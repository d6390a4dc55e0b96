"""C36: the variables that blogc computes itself tell the truth about the build."""
import datetime
import os
import struct
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vbuild  # noqa: E402
import vlib  # noqa: E402

PID = 'C36'
COUNT = {'quick': 12000, 'thorough': 250000}
RULE = ('runs of blogc whose questions to the system (name of the machine, clock, resource usage, control group of process 1) are '
        'answered by a preloaded stand-in with generated facts, in which later questions about usage find more, or that refuses to '
        'answer; templates use the variables inside and outside of blocks, in listings and entries, plain, truncated, compared and in '
        'ifdef/ifndef, some are also set by -D or by a source; each shown value is compared with the fact; distinct = different (facts, uses)')
VARIANTS = ('plain',)
MIN_DISTINCT = 8000
ASSUMPTIONS = ['the manual says that the name of the machine is the short one, the tests of the project that it is the canonical one if it '
               'resolves: both are accepted', 'the usage shown may be that of any question up to then, but stays the same in a run',
               'names of machines and users that are not UTF-8 are not generated']
V = ['BLOGC_RUSAGE_CPU_TIME', 'BLOGC_RUSAGE_MEMORY', 'BLOGC_SYSINFO_HOSTNAME', 'BLOGC_SYSINFO_USERNAME', 'BLOGC_SYSINFO_DATETIME',
     'BLOGC_SYSINFO_INSIDE_DOCKER', 'BLOGC_VERSION']
ZONES = ['UTC', 'CET-1CEST,M3.5.0,M10.5.0/3', 'EST5EDT,M3.2.0,M11.1.0', 'XYZ+12:34:56', 'ABC-14', None]
INSIDE = ['12:pids:/docker/%s', '0::/docker/%s', '3:cpu,cpuacct:/system.slice/docker/%s', '1:name=systemd:/docker/x/docker/%s']
OUTSIDE = ['0::/init.scope', '12:pids:/', '11:devices:/system.slice/docker.service', '0::/system.slice/dockerd', '4:memory:/user.slice/user-0.slice',
           '2:docker:/', '0::/lxc/%s', '1:name=systemd:/libpod_parent/%s', '0::/dockers/%s', '0::/Docker/%s', '']
USERS = ['root', 'nobody', 'é☃😀', 'a b', 'user.name', 'x', 'u' * 300, 'DOMAIN\\user', '%s%n', '{{ A }}', '"q"', "o'x", '<b>&', '0', '-p']
HOSTS = ['box', 'a', 'my-host', 'box.example.com', 'h' * 63, 'x.' * 60 + 'org', 'localhost', '127.0.0.1', 'ns1.sub-domain.example.org', 'é']


def us(r):
    return r.choice([0, 1, 9, 499, 500, 998, 999, 1000, 1001, 1500, 2000, 5000, 10000, 99999, 100000, 999000, 999999, 1000000, 1000001, 1000499, 1000500, 1999999,
                     59999999, 60000000, 3600000000, 86400000000, r.randrange(1000), r.randrange(10 ** 6), r.randrange(10 ** 8), r.randrange(1000) * 1000])


def gen(rng, i, tier):
    r = rng
    facts = {'host': r.choice(HOSTS) if r.random() < .9 else None, 'user': r.choice(USERS) if r.random() < .9 else None,
             'time': r.choice([0, 1, 86399, 951782399, 951782400, 1078099199, 1709164800, 2147483647, 2147483648, 4102444799, 4107542400, 253402300799,
                               r.randrange(1 << 31), r.randrange(1 << 33)]) if r.random() < .93 else None,
             'usage': [us(r), us(r), r.choice([0, 1, 512, 1023, 1024, 1025, 1536, 2047, 102400, 1048575, 1048576, 1048577, 5242880, 123456789,
                                               r.randrange(1 << 12), r.randrange(1 << 22), r.randrange(1 << 30)])] if r.random() < .93 else None,
             'step': r.choice([1, 3, 1000, 777777]), 'zone': r.choice(ZONES)}
    facts['canon'] = r.choice([facts['host'] + '.example.com', 'other.example.org', facts['host']]) if facts['host'] and r.random() < .3 else None
    if r.random() < .1:
        facts['cgroup'] = None
    else:
        inside = r.random() < .5
        n = r.choice([1, 1, 3, 12, 40, 400])
        lines = [r.choice(OUTSIDE) for _ in range(n)]
        if inside:
            lines[r.randrange(n)] = r.choice(INSIDE)
        idn = '%064x' % r.getrandbits(256)
        facts['cgroup'] = ''.join(x.replace('%s', idn) + '\n' for x in lines)
        if r.random() < .3:
            # the telling text across a border of the reads
            k = r.choice([1024, 2048, 4096, 8192]) - r.randint(0, 12)
            facts['cgroup'] = '0::/' + 'x' * (k - 9) + '\n' + '0::/' * (k > 9) + facts['cgroup'] if r.random() < .5 else \
                ('1::/' + 'y' * k)[:k - 3] + ('\n1:' if inside else '\n1:/') + ('/docker/' if inside else 'docker') + idn + '\n'
    listing = r.random() < .5
    n = r.choice([0, 1, 2, 3]) if listing else 1
    conf, src = {}, [{} for _ in range(n)]
    if r.random() < .25:
        for v in r.sample(V[:6], r.choice([1, 2])):
            conf[v] = r.choice(['mine', '', '12ms', '1', 'é'])
    if n and r.random() < .25:
        for v in r.sample(V[:6], r.choice([1, 2])):
            r.choice(src)[v] = r.choice(['own', '', '3s', '0', '☃'])
    def uses(k):
        out = []
        for _ in range(k):
            v = r.choice(V[:6] + V)
            x = r.random()
            out.append([r.choice(['show', 'ifdef', 'ifndef', 'self']) if x > .7 else 'show' if x > .35 else 'bare', v, r.choice([0, 0, 0, 1, 2, 4, 7, 10, 16, 500])])
        return out
    return {'facts': facts, 'listing': listing, 'src': src, 'conf': conf, 'before': uses(r.choice([0, 1, 3, 8])), 'once': uses(r.choice([0, 0, 2])),
            'block': uses(r.choice([0, 1, 3, 6])), 'after': uses(r.choice([0, 1, 4])), 'print': r.choice(V) if r.random() < .3 else None}


def units(x, steps):
    """all the accepted spellings of x / 10**k"""
    return {'%.3f%s' % (y / d, u) for d, u in steps for y in (float(x), struct.unpack('f', struct.pack('f', x))[0])}


def cpu(t):
    if t >= 1000000:
        return units(t, [(1000000., 's')])
    if t >= 1000:
        return units(t, [(1000., 'ms')]) if t % 1000 else {'%dms' % (t // 1000)}
    return {'%dus' % t}


def mem(m):
    if m >= 1048576:
        return units(m, [(1048576., 'GB')])
    if m >= 1024:
        return units(m, [(1024., 'MB')])
    return {'%dKB' % m}


def truth(case, questions):
    """variable -> accepted values (None: undefined)"""
    f = case['facts']
    t = {}
    if f['usage'] is None:
        t[V[0]] = t[V[1]] = {None}
    else:
        a, b, m = f['usage']
        qs = range(max(questions, 1))
        t[V[0]] = set().union(*(cpu(a + b + 2 * q * f['step']) for q in qs))
        t[V[1]] = set().union(*(mem(m + q * f['step']) for q in qs))
    t[V[2]] = {None} if f['host'] is None else {f['host']} | ({f['canon']} if f['canon'] else set())
    t[V[3]] = {f['user']}
    t[V[4]] = {None}
    if f['time'] is not None:
        t[V[4]] = {(datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=f['time'])).strftime('%Y-%m-%d %H:%M:%S')}
    t[V[5]] = {'1' if f['cgroup'] is not None and '/docker/' in f['cgroup'] else None}
    t[V[6]] = {'0.0.0'}
    return t


def tmpl(uses):
    out = []
    for kind, v, n in uses:
        if kind == 'show':
            out.append('{%% ifdef %s %%}\x02{{ %s%s }}{%% else %%}\x03{%% endif %%}\x01' % (v, v, '_%d' % n if n else ''))
        elif kind == 'bare':
            out.append('{{ %s%s }}\x01' % (v, '_%d' % n if n else ''))
        elif kind == 'ifdef':
            out.append('{%% ifdef %s %%}\x02y{%% else %%}\x03{%% endif %%}\x01' % v)
        elif kind == 'ifndef':
            out.append('{%% ifndef %s %%}\x03{%% else %%}\x02y{%% endif %%}\x01' % v)
        else:
            # the value does not change in a run
            out.append('{%% if %s == %s %%}\x02y{%% else %%}\x03{%% endif %%}\x01' % (v, v))
    return ''.join(out)


def run_case(ctx, case):
    res = vlib.Res()
    d = ctx.fresh()
    f = case['facts']
    names = []
    for k, v in enumerate(case['src']):
        names.append('s%d.txt' % k)
        with open('%s/s%d.txt' % (d, k), 'w') as fp:
            fp.write(''.join('%s: %s\n' % kv for kv in v.items()) + '-----\nbody\n')
    t = tmpl(case['before'])
    if case['listing']:
        t += '{% block listing_once %}' + tmpl(case['once']) + '{% endblock %}{% block listing %}' + tmpl(case['block']) + '{% endblock %}'
    else:
        t += '{% block entry %}' + tmpl(case['block']) + '{% endblock %}'
    t += tmpl(case['after'])
    with open(d + '/t.tmpl', 'w') as fp:
        fp.write(t + '.')
    env = vlib.base_env(LD_PRELOAD=vbuild.preload('sysfake', ctx.b['plain']), FAKE_STEP=str(f['step']), FAKE_LOG=d + '/log')
    for k in ('TZ', 'LOGNAME', 'USER'):
        env.pop(k, None)
    env['USER'] = 'not-this-one'
    if f['zone'] is not None:
        env['TZ'] = f['zone']
    if f['user'] is not None:
        env['LOGNAME'] = f['user']
    if f['host'] is not None:
        env['FAKE_HOST'] = f['host']
    if f['canon'] is not None:
        env['FAKE_CANON'] = f['canon']
    if f['time'] is not None:
        env['FAKE_TIME'] = str(f['time'])
    if f['usage'] is not None:
        env['FAKE_UTIME'], env['FAKE_STIME'], env['FAKE_MEM'] = map(str, f['usage'])
    if f['cgroup'] is not None:
        with open(d + '/cgroup', 'w') as fp:
            fp.write(f['cgroup'])
        env['FAKE_CGROUP'] = d + '/cgroup'
    args = [ctx.plain('blogc')]
    for kv in case['conf'].items():
        args += ['-D', '%s=%s' % kv]
    if case['listing']:
        args.append('-l')
    what = 'facts %r, blogc %r, template %r, sources %r' % (dict(f, cgroup=(f['cgroup'] or '')[-200:]), args[1:], t, case['src'])
    if case['print']:
        p = vlib.run(args + ['-p', case['print']] + names, cwd=d, env=env)
        if res.crash(p, '-p'):
            return res
        res.n += 1
        v = case['print']
        ok = {None} | set()
        local = not case['listing'] and v in case['src'][0]
        ok = {case['src'][0][v]} if local else {case['conf'][v]} if v in case['conf'] else truth(case, 2)[v]
        got = p.out.decode('utf-8', 'replace')[:-1] if p.rc == 0 else None
        if got not in ok or (got is None and p.out) or (p.rc == 0 and not p.out.endswith(b'\n')):
            res.bad('printed ' + v, '-p %s: exit %r, %r instead of %r; %s' % (v, p.rc, p.out[-300:], sorted(map(str, ok)), what))
            return res
    x = vlib.run(args + ['-t', 't.tmpl'] + names, cwd=d, env=env)
    if res.crash(x, 'blogc'):
        return res
    if x.rc != 0:
        res.bad('refused', 'exit %r %r: %s' % (x.rc, x.err[-300:], what))
        return res
    got = x.out.decode('utf-8', 'replace').split('\x01')
    try:
        with open(d + '/log') as fp:
            log = fp.read().split()
    except FileNotFoundError:
        log = []
    facts = truth(case, log.count('usage'))
    for q in set(log):
        res.feats['asked for ' + q] += 1
    want = [(u, {}) for u in case['before']]
    if case['listing']:
        want += [(u, {}) for u in case['once']]
        for s in case['src']:
            want += [(u, s) for u in case['block']]
    else:
        want += [(u, case['src'][0]) for u in case['block']]
    want += [(u, {}) for u in case['after']]
    res.n += 1
    res.sig(f, case['conf'], case['src'], t)
    if len(got) != len(want) + 1 or got[-1] != '.':
        res.bad('pieces', '%d instead of %d: %s: %r' % (len(got), len(want) + 1, what, x.out[:500]))
        return res
    seen = {}
    for (u, local), g in zip(want, got):
        kind, v, n = u
        own = local[v] if v in local else case['conf'].get(v)
        ok = {own} if own is not None else facts[v]
        if kind == 'show':
            ok = {'\x03' if o is None else '\x02' + (o[:n] if n else o) for o in ok}
        elif kind == 'bare':
            ok = {'' if o is None else o[:n] if n else o for o in ok}
        else:
            ok = {'\x03' if o is None else '\x02y' for o in ok}
        res.feats[('given ' if own is not None else '') + v + (' undefined' if g in ('\x03', '') else '')] += 1
        if g not in ok:
            res.bad(v, '%r shows %r instead of %r: %s' % (u, g, sorted(ok)[:8], what))
            return res
        if own is None and kind in ('show', 'bare'):
            g = g.lstrip('\x02\x03')
            if seen.setdefault((v, n), g) != g:
                res.bad('changed ' + v, '%r and then %r: %s' % (seen[v, n], g, what))
                return res
    return res


def shrink(case):
    for k in ('before', 'once', 'block', 'after', 'src'):
        for j in range(len(case[k])):
            if k == 'src' and not case['listing']:
                continue
            yield dict(case, **{k: case[k][:j] + case[k][j + 1:]})
    for k in case['conf']:
        yield dict(case, conf={a: b for a, b in case['conf'].items() if a != k})
    if case['print']:
        yield dict(case, print=None)


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
