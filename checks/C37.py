"""C37: blogc-make runs exactly the rules it is told to, in order, and says what it does."""
import os
import random
import re
import shlex
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import mk  # noqa: E402
import sitegen  # noqa: E402
import vlib  # noqa: E402

PID = 'C37'
VARIANTS = ('asan', 'plain')
HARNESSES = {'plain': ['recorder']}
COUNT = {'quick': 1100, 'thorough': 30000}
RULE = ('random command lines of blogc-make (options in every form and place, any sequence of rules with and without arguments, unknown '
        'ones included) on generated sites, partly built before, with blogc found in every documented way; a recorder in the place of '
        'blogc and blogc-runserver logs every call with its arguments, input and environment and then becomes the real program; the log, '
        'the messages, the exit status and the output directory are compared with a model of blogc-make(1); distinct = different '
        '(command line, site, calls)')
MIN_DISTINCT = 400
ASSUMPTIONS = ['whether other rules of a command line with an unknown rule run is left open', 'the order of the files within one rule, and of the rules within all, is left open']
UNKNOWN = ['nonsense', 'ind', 'indexx', 'Index', 'atom-tags', 'al', 'alls', 'post', 'INDEX', 'index ', 'pages,copy', 'copy.', 'cleanall', 'tag']
EXE = {'env', 'path', 'sibling', 'env+sibling'}


def gen(rng, i, tier):
    r = random.Random(rng.randrange(1 << 40))
    c = {'seed': r.randrange(1 << 40), 'lookup': r.choice(['env', 'env', 'env', 'path', 'path', 'sibling', 'env+sibling', 'env+path'])}
    x = i % 41
    if x in (3, 19):
        c['kind'] = 'server'
    elif x in (5, 16, 29):
        c['kind'] = 'dump'
    elif x in (8, 33):
        c['kind'] = 'help'
    elif x in (11, 27):
        c['kind'] = 'refuse'
    else:
        c['kind'] = 'rules'
    site = sitegen.generate(r, small=True)
    site['dev'] = False
    site['settings'].pop('run_from_make', None)
    site['blogcfile'] = r.choice(['blogcfile', 'blogcfile', 'site.ini', 'my file', 'ü.cfg', 'conf/blogcfile'])
    if '/' in site['blogcfile']:
        site['blogcfile'] = 'blogcfile'
    c['site'] = site
    rules = []
    for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 4, 6])):
        y = r.random()
        if y < .7:
            z = r.choice(sitegen.RULES)
        elif y < .82:
            z = 'all'
        elif y < .92:
            z = 'clean'
        else:
            z = r.choice(UNKNOWN)
        if r.random() < .12:
            z += r.choice([':a=b', ':x=1,y=2', ':', ':foo', ':host=1', ':=', ':a=b,c', ':a=:b'])
        rules.append(z)
    c['rules'] = rules
    c['dev'] = r.choice([0, 0, 1, 1, 2]) if r.random() < .6 else 0
    c['verbose'] = r.random() < .4
    c['pre'] = r.choice([None, None, 'all', 'some'])
    c['outdir'] = r.choice([None, None, 'public', 'o ut', 'ABS', './out', 'x/y'])
    c['elsewhere'] = r.random() < .25
    c['lc'] = r.choice([None, 'C', 'C.UTF-8', 'xx_YY'])
    c['odd'] = r.choice([None, '', 'a b', "q'\"$(id)", 'ü'])
    return c


def decode(path):
    calls = []
    if not os.path.exists(path):
        return calls
    with open(path) as fp:
        for line in fp:
            d = {'args': [], 'env': {}, 'input': None, 'tmpl': None}
            for f in line.split():
                k, v = f[0], bytes.fromhex(f[1:])
                if k == 'a':
                    d['args'].append(os.fsdecode(v))
                elif k == 'e':
                    a, b = os.fsdecode(v).split('=', 1)
                    d['env'][a] = b
                elif k == 'i':
                    d['input'] = v
                elif k == 't':
                    d['tmpl'] = v
                else:
                    d[k] = os.fsdecode(v)
            calls.append(d)
    os.unlink(path)
    return calls


def meaning(args):
    """the command line of blogc, as blogc(1) reads it"""
    m = {'D': {}, 'e': [], 'src': [], 'flags': set()}
    k = 0
    while k < len(args):
        a = args[k]
        if a.startswith('-') and a[1:2] in ('D', 'e', 't', 'o', 'p'):
            v = a[2:]
            if not v:
                k += 1
                v = args[k] if k < len(args) else None
            if a[1] == 'D':
                n, _, v = v.partition('=')
                m['D'][n] = v
            elif a[1] == 'e':
                m['e'].append(v)
            else:
                m[a[1]] = v
        elif a.startswith('-') and a[1:2] in ('l', 'i', 'd', 'h', 'v'):
            m['flags'].add(a[1])
        else:
            m['src'].append(a)
        k += 1
    return m


class World:
    def __init__(self, ctx, case):
        r = self.r = random.Random(case['seed'])
        self.case, self.site = case, case['site']
        self.top = ctx.fresh('w')
        self.d = os.path.join(self.top, r.choice(['site', 'my site']))
        os.mkdir(self.d)
        sitegen.write(self.site, self.d, r)
        for root, dirs, files in os.walk(self.d):
            for f in files:
                os.utime(os.path.join(root, f), (1600000000, 1600000000 + len(f)))
        self.log = os.path.join(self.top, 'log')
        rec = os.path.realpath(os.path.join(ctx.b['plain'], 'recorder'))
        self.bin = os.path.join(self.top, 'bin dir')
        os.mkdir(self.bin)
        self.val, self.out = mk.outdir(case['outdir'], self.top, self.d)
        self.env = vlib.base_env(OUTPUT_DIR=self.val, REC_LOG=self.log, REC_REAL=os.path.realpath(ctx.plain('blogc')), REC_PLAIN='kept', HOME=self.top)
        for k in ('BLOGC', 'BLOGC_RUNSERVER', 'MAKEFLAGS'):
            self.env.pop(k, None)
        if case['odd'] is not None:
            self.env['REC_ODD'] = case['odd']
        if case['lc'] is not None:
            self.env['LC_ALL'] = case['lc']
        else:
            self.env.pop('LC_ALL', None)
        self.env['PATH'] = '/usr/bin:/bin'
        self.exes = {}
        look = case['lookup'].split('+')
        self.make = os.path.realpath(ctx.asan('blogc-make'))
        sib = os.path.join(self.top, r.choice(['sib', "s i'b", '$x']))
        for prog, var in (('blogc', 'BLOGC'), ('blogc-runserver', 'BLOGC_RUNSERVER')):
            first = True
            for w in look:
                if w == 'env':
                    p = os.path.join(self.top, r.choice(['e', 'e v']), r.choice(['tool', prog, "it's"]) if prog != 'blogc' else 'blogc')
                    self.env[var] = p
                elif w == 'path':
                    p = os.path.join(self.bin, prog)
                    self.env['PATH'] = self.bin + ':/usr/bin:/bin'
                else:
                    p = os.path.join(sib, prog)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if not os.path.exists(p):
                    shutil.copy(rec, p)
                if first:
                    self.exes[prog] = p
                first = False
        if 'sibling' in look:
            self.make = os.path.join(sib, 'blogc-make')
            os.symlink(os.path.realpath(ctx.asan('blogc-make')), self.make)
        elif 'path' in look:
            # found through PATH itself, so no directory to look in
            os.symlink(self.make, os.path.join(self.bin, 'blogc-make'))
            self.make = 'blogc-make'

    def run(self, args, env=None):
        cmd = [self.make] + args
        e = env or self.env
        exe = cmd[0]
        if '/' not in exe:
            cmd = ['/usr/bin/env'] + cmd
        return vlib.run(cmd, env=e, cwd=self.cwd, timeout=60)

    def cmdline(self, rules):
        """options in any place, and the rules in order"""
        c, r = self.case, self.r
        opts = [['-D']] * c['dev'] + [['-V']] * c['verbose']
        self.cwd = self.d
        f = self.site['blogcfile']
        if c['elsewhere']:
            self.cwd = self.top
            f = os.path.join(self.d if r.random() < .5 else os.path.basename(self.d), f)
        if f != 'blogcfile' or r.random() < .3:
            opts.append(['-f', f] if r.random() < .5 else ['-f' + f])
        seq = [[x] for x in rules]
        for o in opts:
            seq.insert(r.randrange(len(seq) + 1), o)
        return [y for x in seq for y in x]


def said(p):
    return mk.said(p)


def run_case(ctx, case):
    res = vlib.Res()
    w = World(ctx, case)
    w.cwd = w.d
    globals()['kind_' + case['kind']](ctx, case, res, w)
    return res


def existing(w):
    return {p for p in sitegen.read_tree(w.out)} if os.path.isdir(w.out) else set()


def kind_rules(ctx, case, res, w):
    site, r = w.site, w.r
    outs = {rule: sitegen.outputs(site, [rule]) for rule in sitegen.RULES}
    if case['pre']:
        pre = ['all'] if case['pre'] == 'all' else r.sample(sitegen.RULES, 4)
        a = w.cmdline(pre)
        p = w.run(a)
        if res.crash(p, 'blogc-make %r' % a):
            return
        if p.rc != 0:
            return res.bad('status', 'blogc-make %r failed\n%s' % (a, said(p)))
        decode(w.log)
        have = existing(w)
        allp = [x for y in outs.values() for x in y]
        for rule, path, info in allp:
            if path in have and r.random() < .2:
                os.unlink(os.path.join(w.out, path))
    have = existing(w)
    args = w.cmdline(case['rules'])
    p = w.run(args)
    info = 'blogc-make %r (in %r, lookup %s)\n%s\n%s' % (args, os.path.relpath(w.cwd, w.top), case['lookup'], said(p), sitegen.blogcfile(site, random.Random(1)))
    if res.crash(p, 'blogc-make %r' % args):
        return
    calls = decode(w.log)
    names = [x.split(':', 1)[0] for x in case['rules']] or ['all']
    unknown = [x for x in names if x not in sitegen.RULES + ['all', 'clean']]
    res.n += 1
    if (p.rc != 0) != bool(unknown) or p.rc not in (0, 1):
        return res.bad('status', 'exit status %r, unknown rules %r\n%s' % (p.rc, unknown, info))
    for x in unknown:
        if x.encode() not in p.err:
            return res.bad('message', 'no message about the unknown rule %r\n%s' % (x, info))
    # what has to be built, step by step
    present = {path for rule in outs for _, path, _ in outs[rule] if path in have}
    steps = []
    for x in names:
        if x in unknown:
            continue
        if x == 'clean':
            steps.append((x, []))
            present = set()
            continue
        todo = [o for rule in (sitegen.RULES if x == 'all' else [x]) for o in outs[rule] if o[1] not in present]
        present |= {o[1] for o in todo}
        steps.append((x, todo))
    queries = [c for c in calls if 'p' in meaning(c['args'])]
    builds = [c for c in calls if 'p' not in meaning(c['args'])]
    if not unknown:
        k = 0
        for x, todo in steps:
            want = {os.path.normpath(os.path.join(w.out, o[1])): o for o in todo if o[0] != 'copy'}
            mine = builds[k:k + len(want)]
            k += len(want)
            got = [os.path.normpath(os.path.join(c['c'], meaning(c['args']).get('o') or '')) for c in mine]
            if sorted(got) != sorted(want):
                return res.bad('calls', 'rule %s built %r, expected %r\nsteps %r\n%s' % (x, sorted(got), sorted(want), [(a, [o[1] for o in b]) for a, b in steps], info))
            for c, o in zip(mine, got):
                if not judge_call(res, w, c, want[o], info):
                    return
            res.n += len(want)
        if k != len(builds):
            return res.bad('calls', 'more calls than needed: %r\n%s' % ([c['args'] for c in builds[k:]][:3], info))
    for c in queries:
        m = meaning(c['args'])
        if m['p'] != 'LAST_PAGE' or 'o' in m or not set(names) & {'all', 'clean', 'pagination', 'pagination_tags'}:
            return res.bad('query', 'unexpected call %r\n%s' % (c['args'], info))
        if not common(res, w, c, m, info):
            return
    # what is there afterwards
    now = existing(w)
    built = {o[1] for rule in outs for o in outs[rule]}
    if not unknown:
        if built & now != present:
            return res.bad('tree', 'missing %r, too many %r\n%s' % (sorted(present - now)[:5], sorted((built & now) - present)[:5], info))
    else:
        allowed = {o[1] for x in names if x not in unknown for rule in (sitegen.RULES if x == 'all' else [x] if x != 'clean' else []) for o in outs[rule]} | have
        if not (built & now) <= allowed:
            return res.bad('tree', 'built although not asked for: %r\n%s' % (sorted((built & now) - allowed)[:5], info))
    # what it said
    lines = [x for x in p.out.decode('utf-8', 'surrogateescape').split('\n') if x]
    if not unknown:
        if case['verbose']:
            shown = []
            for x in lines:
                if not re.match(r'(LC_ALL=|\S*blogc|.?%s)' % re.escape(w.top), x):
                    continue
                try:
                    t = shlex.split(x)
                except ValueError:
                    continue
                if t and t[0].startswith('LC_ALL='):
                    t = t[1:]
                if t and os.path.basename(t[0]) == 'blogc':
                    shown.append(t[1:])
            if shown != [c['args'] for c in calls]:
                bad = next((k for k in range(max(len(shown), len(calls))) if shown[k:k + 1] != [c['args'] for c in calls][k:k + 1]), None)
                return res.bad('verbose', 'shows %d commands, ran %d; the first difference: %r, %r\n%s' % (
                    len(shown), len(calls), shown[bad:bad + 1], [c['args'] for c in calls[bad:bad + 1]], info))
            res.feats['commands shown'] += len(shown)
        else:
            want = []
            short = os.path.relpath(w.out, w.d)
            for x, todo in steps:
                want += [o[1] for o in todo]
            seen = [x for x in lines if re.match(r'\s*(BLOGC|COPY)\s', x)]
            if len(seen) != len(want):
                return res.bad('progress', 'names %d files, built %d: %r\n%s' % (len(seen), len(want), seen[:6], info))
            left = list(seen)
            for q in sorted(want, key=len, reverse=True):
                hit = next((y for y in left if y.endswith('/' + q) or y.endswith(' ' + q)), None)
                if hit is None:
                    return res.bad('progress', '%r is not among %r\n%s' % (q, left[:8], info))
                left.remove(hit)
            res.feats['files named'] += len(want)
    for x in names:
        res.feats['rule ' + (x if x not in unknown else 'unknown')] += 1
    res.feats['lookup ' + case['lookup']] += 1
    res.feats['calls'] += len(calls)
    for x, todo in steps:
        if x not in ('all', 'clean') and len(todo) < len(outs[x]):
            res.feats['rules partly or fully up to date'] += 1
    res.sig(args, len(calls), sorted(site['settings'].items()), len(site['posts']), case['lookup'])
    res.sample = {'args': args, 'lookup': case['lookup'], 'calls': len(calls), 'pre': case['pre'], 'first call': calls[0]['args'][:8] if calls else None}


def common(res, w, c, m, info):
    """what holds for every call of blogc"""
    site, case = w.site, w.case
    if os.path.realpath(c['x']) != os.path.realpath(w.exes['blogc']):
        return res.bad('program', 'ran %r instead of %r\n%s' % (c['x'], w.exes['blogc'], info))
    dev = {k: v for k, v in m['D'].items() if k in ('MAKE_ENV', 'MAKE_ENV_DEV')}
    if dev != ({'MAKE_ENV': 'dev', 'MAKE_ENV_DEV': '1'} if case['dev'] else {}):
        return res.bad('development', 'development variables %r with %d times -D\n%r\n%s' % (dev, case['dev'], c['args'], info))
    for k, v in site['globals'].items():
        if m['D'].get(k) != v:
            return res.bad('global', '%s is %r instead of %r\n%r\n%s' % (k, m['D'].get(k), v, c['args'], info))
    odd = set(m['D']) - set(site['globals'])
    odd = {k for k in odd if not re.match(r'(MAKE_|FILTER_|DATE_FORMAT$|IS_POST$)', k)}
    if odd:
        return res.bad('global', 'unexpected variables %r\n%r\n%s' % (odd, c['args'], info))
    want = site['settings'].get('locale', case['lc'])
    if c['env'].get('LC_ALL') != want:
        return res.bad('locale', 'LC_ALL is %r instead of %r\n%s' % (c['env'].get('LC_ALL'), want, info))
    if c['env'].get('REC_PLAIN') != 'kept' or c['env'].get('REC_ODD') != case['odd'] or c['env'].get('HOME') != w.top:
        return res.bad('environment', 'environment not inherited: %r\n%s' % (c['env'], info))
    return True


def sources(w, c, m):
    got = list(m['src'])
    if 'i' in m['flags'] and c['input'] is not None:
        got += [os.fsdecode(x) for x in c['input'].split(b'\n') if x]
    return [os.path.realpath(os.path.join(c['c'], x)) for x in got]


def judge_call(res, w, c, o, info):
    site = w.site
    rule, path, what = o
    m = meaning(c['args'])
    if not common(res, w, c, m, info):
        return False
    post = what.get('post')
    want = {'MAKE_RULE': rule, 'MAKE_TYPE': {'pages': 'page', 'atom': 'atom', 'atom_tags': 'atom'}.get(rule, 'post')}
    if post:
        want['MAKE_SLUG'] = post['slug']
    if site['tags']:
        want['MAKE_TAGS'] = ' '.join(site['tags'])
    got = {k: v for k, v in m['D'].items() if k.startswith('MAKE_') and not k.startswith('MAKE_ENV')}
    if got != want:
        res.bad('helper variables', '%s: %r instead of %r\n%s' % (path, got, want, info))
        return False
    if ('l' in m['flags']) != (post is None):
        res.bad('listing', '%s: %r\n%s' % (path, c['args'], info))
        return False
    src = [post['slug']] if post else [p['slug'] for p in site['posts']]
    full = [os.path.realpath(os.path.join(w.d, sitegen.source_path(site, s, rule != 'pages'))) for s in src]
    if sources(w, c, m) != full:
        res.bad('sources', '%s: %r instead of %r\n%s' % (path, sources(w, c, m), full, info))
        return False
    feed = rule.startswith('atom')
    entry = [os.path.realpath(os.path.join(w.d, sitegen.entry_path(site)))] if site.get('entry') and not post and not feed else []
    if [os.path.realpath(os.path.join(c['c'], x)) for x in m['e']] != entry:
        res.bad('listing entry', '%s: %r instead of %r\n%s' % (path, m['e'], entry, info))
        return False
    t = sitegen.S(site, 'atom_template' if feed else 'main_template')
    if t:
        t = os.path.realpath(os.path.join(w.d, sitegen.S(site, 'template_dir'), t))
        if os.path.realpath(os.path.join(c['c'], m.get('t') or '')) != t:
            res.bad('template', '%s: template %r instead of %r\n%s' % (path, m.get('t'), t, info))
            return False
    return True


def kind_dump(ctx, case, res, w):
    """what atom_dump writes is what the feeds are made from, and can be used in its place"""
    site, r = w.site, w.r
    own = sitegen.S(site, 'atom_template')
    args = w.cmdline(['atom_dump'])
    p = w.run(args)
    info = 'blogc-make %r\n%s\n%s' % (args, said(p), sitegen.blogcfile(site, random.Random(1)))
    if res.crash(p, 'blogc-make atom_dump'):
        return
    if p.rc != 0 or not p.out:
        return res.bad('dump', 'atom_dump failed\n%s' % info)
    if decode(w.log) or existing(w):
        return res.bad('dump', 'atom_dump built something\n%s' % info)
    if own:
        site['settings'].pop('atom_template')
        sitegen.put(os.path.join(w.d, site['blogcfile']), sitegen.blogcfile(site, r))
    if not [x for x in sitegen.outputs(site, ['atom', 'atom_tags'])]:
        res.feats['dumps of sites without feeds'] += 1
        return
    a = w.cmdline(['atom', 'atom_tags'])
    q = w.run(a)
    if res.crash(q, 'blogc-make %r' % a):
        return
    calls = decode(w.log)
    used = {c['tmpl'] for c in calls if c['tmpl'] is not None}
    if q.rc != 0 or len(used) > 1:
        return res.bad('dump', 'feeds failed, or used several templates: %r\n%s' % (len(used), said(q)))
    one = {x: y for x, y in sitegen.read_tree(w.out).items() if isinstance(y, bytes)}
    site['settings']['atom_template'] = 'dumped.tmpl'
    sitegen.put(os.path.join(w.d, sitegen.S(site, 'template_dir'), 'dumped.tmpl'), p.out)
    sitegen.put(os.path.join(w.d, site['blogcfile']), sitegen.blogcfile(site, r))
    vlib.wipe(w.out)
    q = w.run(a)
    if res.crash(q, 'blogc-make %r' % a):
        return
    two = {x: y for x, y in sitegen.read_tree(w.out).items() if isinstance(y, bytes)}
    res.n += len(one) + 1
    if q.rc != 0 or one != two:
        d = [x for x in sorted(set(one) | set(two)) if one.get(x) != two.get(x)]
        return res.bad('dump', 'the dumped template gives other feeds: %r\n%r\n%r\n%s' % (d[:3], one.get(d[0])[:600] if d and one.get(d[0]) else None, two.get(d[0])[:600] if d and two.get(d[0]) else None, info))
    res.feats['feeds made from dumped templates'] += len(one)
    res.sig('dump', sorted(site['settings'].items()), len(one))


NAMES = sitegen.RULES + ['all', 'clean', 'runserver', 'watch', 'atom_dump']


def kind_help(ctx, case, res, w):
    r = w.r
    what = r.choice(['-h', '-v', '-x', '-Q', '--help', '-'])
    args = w.cmdline([x for x in case['rules']])
    k = r.choice([0, len(args)] + ([1] if args and args[0] in ('-D', '-V') else []))
    args = args[:k] + [what] + args[k:]
    p = w.run(args)
    info = 'blogc-make %r\n%s' % (args, said(p))
    if res.crash(p, 'blogc-make %r' % args):
        return
    res.n += 1
    if decode(w.log) or existing(w):
        return res.bad('help', 'something was built\n%s' % info)
    if what in ('-h', '-v'):
        if p.rc != 0 or not p.out or p.err:
            return res.bad('help', 'no answer, or a failure\n%s' % info)
        if what == '-h':
            t = p.out.decode()
            miss = [n for n in NAMES if not re.search(r'(?m)^\s+%s\s' % n, t)] + [o for o in ('-h', '-v', '-D', '-V', '-f') if not re.search(r'(?m)^\s+%s\b' % o, t)]
            if miss:
                return res.bad('help', 'the help does not tell about %r\n%s' % (miss, info))
        elif b'0.0.0' not in p.out:
            return res.bad('help', 'no version\n%s' % info)
    elif p.rc == 0 or not p.err:
        return res.bad('help', 'an unknown option was accepted\n%s' % info)
    res.feats['option ' + what] += 1
    res.sig('help', args)


def kind_refuse(ctx, case, res, w):
    """run_from_make, and blogcfiles that are not there"""
    site, r = w.site, w.r
    x = r.choice(['make', 'make', 'absent', 'directory'])
    env = dict(w.env)
    args = w.cmdline([y for y in case['rules'] if y.split(':')[0] not in UNKNOWN])
    ok = False
    if x == 'make':
        v = r.choice(['true', '1', 'yes', 'on', 'false', '0', 'no', 'TRUE', ''])
        site['settings']['run_from_make'] = v
        sitegen.put(os.path.join(w.d, site['blogcfile']), sitegen.blogcfile(site, r))
        fl = r.choice([None, None, '', 'n'])
        if fl is not None:
            env['MAKEFLAGS'] = fl
        ok = fl is not None or v.lower() not in ('true', '1', 'yes', 'on')
    elif x == 'absent':
        os.unlink(os.path.join(w.d, site['blogcfile']))
    else:
        os.unlink(os.path.join(w.d, site['blogcfile']))
        os.mkdir(os.path.join(w.d, site['blogcfile']))
    p = w.run(args, env)
    info = 'blogc-make %r (%s, %r)\n%s' % (args, x, site['settings'].get('run_from_make'), said(p))
    if res.crash(p, 'blogc-make %r' % args):
        return
    calls = decode(w.log)
    res.n += 1
    if ok:
        if p.rc != 0:
            return res.bad('refuse', 'refused\n%s' % info)
    elif p.rc == 0 or calls or existing(w) or not p.err:
        return res.bad('refuse', 'not refused, without a message, or too late\n%s' % info)
    res.feats['%s: %s' % (x, 'run' if ok else 'refused')] += 1
    res.sig('refuse', x, args, ok)


def kind_server(ctx, case, res, w):
    site, r = w.site, w.r
    rc = r.choice([0, 0, 1, 3, 77])
    env = dict(w.env, REC_RC=str(rc))
    given = {}
    parts = []
    for k in r.sample(['host', 'port', 'threads', 'other'], r.choice([0, 1, 2, 3, 4])):
        v = r.choice({'host': ['127.0.0.1', '::1', 'localhost', 'a b', ''], 'port': ['8080', '0', '1', 'http', '65536'], 'threads': ['1', '20', '0', 'x'], 'other': ['1', '=', 'a=b']}[k])
        given[k] = v
        parts.append('%s=%s' % (k, v))
    rule = 'runserver' + (':' + ','.join(parts) if parts else r.choice(['', '', ':', ':nothing']))
    args = w.cmdline([rule])
    p = w.run(args, env)
    info = 'blogc-make %r (server exits %d)\n%s' % (args, rc, said(p))
    if res.crash(p, 'blogc-make %r' % args):
        return
    calls = decode(w.log)
    srv = [c for c in calls if os.path.realpath(c['x']) == os.path.realpath(w.exes['blogc-runserver'])]
    res.n += 1
    if len(srv) != 1:
        return res.bad('server', 'the web server was started %d times\n%s' % (len(srv), info))
    want = {}
    for k, o in (('host', '-t'), ('port', '-p'), ('threads', '-m')):
        if k in given:
            want[o] = given[k]
    got, rest, a, k = {}, [], srv[0]['args'], 0
    while k < len(a):
        if a[k] in ('-t', '-p', '-m') and k + 1 < len(a):
            got[a[k]] = a[k + 1]
            k += 1
        elif a[k][:2] in ('-t', '-p', '-m'):
            got[a[k][:2]] = a[k][2:]
        else:
            rest.append(os.path.normpath(os.path.join(srv[0]['c'], a[k])))
        k += 1
    if got != want or rest != [w.out]:
        return res.bad('server', 'the web server got %r, expected %r and %r\n%s' % (a, want, w.out, info))
    if (p.rc != 0) != (rc != 0):
        return res.bad('server', 'exit status %r\n%s' % (p.rc, info))
    if srv[0]['env'].get('REC_PLAIN') != 'kept' or srv[0]['env'].get('REC_ODD') != case['odd']:
        return res.bad('environment', 'environment not inherited by the web server: %r\n%s' % (srv[0]['env'], info))
    for c in calls:
        if c not in srv and not common(res, w, c, meaning(c['args']), info):
            return
    res.feats['servers started'] += 1
    res.sig('server', rule, rc, case['lookup'])


def shrink(case):
    s = case['site']

    def but(**kw):
        return dict(case, site=dict(s, **kw))
    for j in range(len(case['rules'])):
        yield dict(case, rules=case['rules'][:j] + case['rules'][j + 1:])
    for k in ('posts', 'pages', 'tags', 'copy'):
        if s[k]:
            yield but(**{k: []})
            yield but(**{k: s[k][:-1]})
    for k in s['settings']:
        if k != 'listing_entry':
            yield but(settings={a: b for a, b in s['settings'].items() if a != k})
    for k, v in (('pre', None), ('outdir', None), ('elsewhere', False), ('verbose', False), ('dev', 0), ('lookup', 'env'), ('lc', None), ('odd', None)):
        if case[k] != v:
            yield dict(case, **{k: v})


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
