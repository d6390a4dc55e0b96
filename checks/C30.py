"""C30: the output is a function of the inputs, in every variant and spelling."""
import copy
import os
import random
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import C01  # noqa: E402
import mk  # noqa: E402
import sitegen  # noqa: E402
import tmpl  # noqa: E402
import vlib  # noqa: E402

PID = 'C30'
VARIANTS = ('asan', 'plain', 'msan')
COUNT = {'quick': 900, 'thorough': 40000}
RULE = ('pairs of runs that must not differ: blogc with the arguments in other orders and spellings, with -i, from other directories, under other '
        'environments, with other contents of fresh memory, with MemorySanitizer and AddressSanitizer, to a file and to standard output; '
        'blogc-make twice, from other directories, to other directories, rule by rule, and as blogc -m; distinct = different inputs')
MIN_DISTINCT = 400
ASSUMPTIONS = ['names of sources given with -i have no white space around them, no line ends and no leading #', 'date formats do not ask for the time zone']
ENVS = [{}, {'MALLOC_PERTURB_': '1'}, {'MALLOC_PERTURB_': '165'}, {'MALLOC_PERTURB_': '255', 'HOME': '/', 'TERM': 'dumb', 'USER': 'x', 'A': 'env', 'TITLE': 'env'},
        {'FOO': 'x' * 5000, 'COLUMNS': '3', 'POSIXLY_CORRECT': '1'}, {'TZ': 'Asia/Tokyo'}, {'TZ': 'America/New_York', 'MALLOC_PERTURB_': '7'}, {'TZ': None, 'HOME': None, 'PATH': '/usr/bin:/bin'},
        {'SOURCE_DATE_EPOCH': '1', 'MALLOC_ARENA_MAX': '1', 'MALLOC_TOP_PAD_': '1'}, {'FILTER_TAG': 'x', 'FILTER_PAGE': '1', 'DATE_FORMAT': '%Y', 'BLOGC_VERSION': 'x'},
        {'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0:glibc.malloc.perturb=90'}]


def gen(rng, i, tier):
    return {'kind': 'make' if i % 5 == 0 else 'blogc', 'seed': rng.randrange(1 << 40)}


def run_case(ctx, case):
    res = vlib.Res()
    {'make': make, 'blogc': blogc}[case['kind']](ctx, random.Random(case['seed']), case, res)
    return res


# ---------------------------------------------------------------- blogc

def clean_source(r, k):
    """a source without an error"""
    v = tmpl.variables(r, .5)
    v = {a: b for a, b in v.items() if b}
    v.setdefault('TITLE', 'post %d' % k)
    if r.random() < .8:
        v['DATE'] = '20%02d-%02d-%02d %02d:%02d:%02d' % (r.randrange(100), r.randint(1, 12), r.randint(1, 28), r.randrange(24), r.randrange(60), r.randrange(60))
    if r.random() < .7:
        v['TAGS'] = ' '.join(r.sample(['a', 'b', 'one', 'two', 'x-y'], r.randint(1, 3)))
    import gencontent
    src, _ = gencontent.join(gencontent.document(r, r.choice([0, 1, 2, 4])))
    return ''.join('%s: %s\n' % kv for kv in v.items()) + '-----\n' + src + r.choice(['\n', ''])


def blogc(ctx, r, case, res):
    d = ctx.fresh()
    deep = os.path.join(d, r.choice(['in', 'i n', 'é/x', 'a/b/c', "q'\"$x"]))
    os.makedirs(deep)
    broken = r.random() < .3
    names, pool = [], [C01.doc(r), C01.template(r)]
    listing = r.random() < .55
    for k in range(r.choice([1, 2, 3, 6]) if listing else 1):
        name = r.choice(['s%d.txt', 'post-%d.md', 'p %d', '%d', 'x.y.%d.txt', 'é%d.txt', '-%d.txt' if r.random() < .2 else 's-%d.txt']) % k
        s = C01.mutate(r, C01.doc(r), pool) if broken and r.random() < .6 else clean_source(r, k)
        with open(os.path.join(deep, name), 'wb') as fp:
            fp.write(s.encode('utf-8', 'surrogateescape'))
        names.append(name)
    entries = []
    if listing:
        for k in range(r.choice([0, 0, 1, 2, 3])):
            entries.append(r.choice(names + ['']))
    t = C01.template(r)
    if broken and r.random() < .4:
        t = C01.mutate(r, t, pool)
    elif r.random() < .4:
        # everything that a listing knows
        t = '{{ FIRST }}|{{ LAST_PAGE }}|{{ DATE_FIRST_FORMATTED }}|{{ FILENAME_FIRST }}|{{ FILENAME_LAST }}|{{ CURRENT_PAGE }}{% block listing_entry %}<{{ TITLE }}{{ FILENAME }}>{% endblock %}{% block listing %}' \
            '[{{ FILENAME }}|{{ TITLE }}|{{ TAGS }}|{{ DATE_FORMATTED }}{% foreach TAGS %}({{ FOREACH_ITEM }}){% endforeach %}{{ CONTENT }}]{% endblock %}' + t
    with open(os.path.join(deep, 't.tmpl'), 'wb') as fp:
        fp.write(t.encode())
    defs = {}
    for k, vs in (('A', ['b', 'é', 'x=y']), ('FILTER_PAGE', ['1', '2', '0']), ('FILTER_PER_PAGE', ['1', '2', '10']), ('FILTER_TAG', ['a', 'one', 'none']), ('FILTER_SORT', ['1', '0']),
                  ('FILTER_REVERSE', ['1', 'no']), ('DATE_FORMAT', ['%Y/%m', '%b %d, %Y, %I:%M %p', '%A %j']), ('TITLE', ['from -D']), ('B_2', ['', 'two']), ('TOCTREE_MAXDEPTH', ['1', '-1'])):
        if r.random() < .25:
            defs[k] = r.choice(vs)
    pr = r.choice(['TITLE', 'CONTENT', 'DATE_FORMATTED', 'A', 'LAST_PAGE', 'FILENAME', 'FILENAME_FIRST', 'TAGS', 'NOPE', 'EXCERPT', 'TOCTREE', 'BLOGC_VERSION']) if r.random() < .25 else None
    q = {'names': names, 'entries': entries, 'defs': defs, 'listing': listing, 'print': pr, 'dir': deep, 'd': d, 'debug': False}
    # absolute names make the messages comparable
    base = one(ctx, r, q, plain_spelling=True)
    if res.crash(base, 'blogc'):
        return
    res.sig(case['seed'])
    res.feats['blogc exits %d' % base.rc] += 1
    how = []
    for k in range(7):
        h = {'env': r.choice(ENVS) if r.random() < .7 else {}, 'cwd': r.choice(['d', 'd', '/', 'in', 'rel', 'rel']), 'variant': ['plain', 'msan', 'asan', 'plain', 'plain', 'plain', 'plain'][k],
             'stdin': r.random() < .35, 'out': r.random() < .35 and base.rc == 0 and pr is None, 'spell': r.random() < .8, 'debug': r.random() < .1}
        p = one(ctx, r, q, **h)
        res.n += 1
        how = ' '.join('%s=%r' % x for x in h.items())
        if res.crash(p, 'blogc: ' + how):
            return
        for f in ('env', 'stdin', 'out', 'debug'):
            res.feats['with ' + f] += bool(h[f])
        same_err = h['cwd'] in ('d', '/') and not h['debug']
        if p.rc != base.rc or p.out != base.out or same_err and p.err != base.err:
            res.bad('differs', 'exit %r instead of %r with %s\n%s\n%r\ninstead of\n%r\n%s\n%s' % (p.rc, base.rc, how, p.cmd, p.out[:1200], base.out[:1200], p.err[:400], base.err[:400]))
            return
    res.sample = {'arguments': q['names'] + [str(defs)], 'last': how}


class Ran(object):
    def __init__(self, p, out, cmd):
        self.rc, self.out, self.err, self.timed_out, self.cmd = p.rc, out, p.err, p.timed_out, cmd

    def _replace(self, **kw):
        c = copy.copy(self)
        c.__dict__.update(kw)
        return c


def one(ctx, r, q, plain_spelling=False, env=None, cwd='d', variant='plain', stdin=False, out=False, spell=False, debug=False):
    """one run, in some spelling"""
    if cwd == 'rel':
        wd, pre = q['dir'], './' if any(n.startswith('-') for n in q['names']) or r.random() < .3 else ''
    else:
        wd = {'d': q['d'], '/': '/', 'in': q['dir']}[cwd]
        pre = q['dir'] + '/'
    srcs = [pre + n for n in q['names']]
    data = None
    opts = []                      # groups whose order does not matter
    fixed = []                     # groups that stay in this order

    def opt(o, v):
        return ['-%s%s' % (o, v)] if spell and v and r.random() < .5 else ['-' + o, v]
    for k, v in q['defs'].items():
        opts.append(opt('D', '%s=%s' % (k, v)))
    if q['listing']:
        opts.append(['-l'])
    if q['print'] is not None:
        opts.append(opt('p', q['print']))
    if debug:
        opts.append(['-d'])
    opts.append(opt('t', pre + 't.tmpl'))
    ofile = os.path.join(q['d'], 'out')
    if out:
        if r.random() < .3:
            ofile = os.path.join(q['d'], 'o ut/x/y.html')
        elif r.random() < .5:
            with open(ofile, 'wb') as fp:
                fp.write(b'z' * 100000)
        opts.append(opt('o', ofile))
    elif spell and r.random() < .15:
        opts.append(opt('o', '-'))
    if stdin:
        n = r.randrange(len(srcs) + 1) if r.random() < .3 else 0
        lines = []
        for s in srcs[n:]:
            lines += r.choice([[], [], [], ['# comment'], [''], ['   '], ['\t# comment ' + s], ['#']])
            lines.append(r.choice(['', '', ' ', '\t ']) + s + r.choice(['', '', ' ', '\t']))
        eol = r.choice(['\n', '\n', '\r\n', '\r'])
        data = eol.join(lines + r.choice([[], [''], ['', ''], ['# end'], ['#']]))
        srcs = srcs[:n]
        opts.append(['-i'])
    for s in srcs:
        fixed.append([s])
    es = [opt('e', pre + e if e else '') for e in q['entries']]
    if plain_spelling:
        args = [x for g in opts + es + fixed for x in g]
    else:
        # the order among sources, and among entries, stays
        r.shuffle(opts)
        slots = ['o'] * len(opts) + ['s'] * len(fixed) + ['e'] * len(es)
        r.shuffle(slots)
        its = {'o': iter(opts), 's': iter(fixed), 'e': iter(es)}
        args = [x for s in slots for x in next(its[s])]
    e = vlib.base_env(**(env or {}))
    cmd = [getattr(ctx, variant)('blogc')] + args
    p = vlib.run([c.encode('utf-8', 'surrogateescape') for c in cmd], stdin=data.encode() if data is not None else None, env=e, cwd=wd, timeout=30)
    got = p.out
    if out and p.rc == 0:
        with open(ofile, 'rb') as fp:
            got = p.out + fp.read()
        os.unlink(ofile)
    return Ran(p, got, ' '.join(repr(c) for c in cmd[1:]) + (' < %r' % data if data is not None else ''))


# ---------------------------------------------------------------- blogc-make

def make(ctx, r, case, res):
    site = sitegen.generate(r, small=r.random() < .7)
    top = ctx.fresh()
    d = os.path.join(top, r.choice(['site', 'my site', 'é', "it's"]))
    os.mkdir(d)
    sitegen.write(site, d, random.Random(case['seed']))
    broken = None
    if r.random() < .25:
        broken = r.choice(['post', 'template', 'settings', 'copy'])
        t = sitegen.tree(site, random.Random(case['seed']))
        main = sitegen.S(site, 'template_dir') + '/' + sitegen.S(site, 'main_template')
        f = {'template': main, 'settings': site['blogcfile'], 'copy': site['copy'][0] if site['copy'] and site['copy'][0] in t else None,
             'post': sitegen.source_path(site, site['posts'][0]['slug'], True) if site['posts'] else None}[broken]
        if f is not None:
            if r.random() < .4 and broken != 'settings':
                os.unlink(os.path.join(d, f))
            else:
                with open(os.path.join(d, f), 'wb') as fp:
                    fp.write(r.choice([b'', b'{{', b'x', b'[foo\n', b'[global]\nA=\n']))
    bins = os.path.join(top, r.choice(['bin', 'b in', "b'in$x"]))
    os.mkdir(bins)
    emb = r.choice(['blogc-e', 'blogc-static', 'sb logc'])
    for v in ('plain', 'asan', 'msan'):
        os.mkdir(os.path.join(bins, v))
        for a, b in (('blogc-make', 'blogc-make'), ('blogc', 'blogc'), ('blogc-embedded', emb)):
            os.symlink(getattr(ctx, v)(a), os.path.join(bins, v, b))
    first, said, ways = None, None, []
    names = sitegen.RULES
    for k in range(6):
        v = ['plain', 'plain', 'plain', 'msan', 'asan', 'plain'][k] if k < 5 or r.random() < .8 else 'msan'
        m = k > 0 and (k == 1 or r.random() < .5)
        out = os.path.join(top, r.choice(['out%d', 'o ut%d', 'x/y/out%d', 'out%d/']) % k)
        # what is built is the same for each order of the rules when nothing fails
        rules = r.choice([[], ['all'], []])
        if k > 1 and broken is None and r.random() < .3:
            rules = r.sample(names, len(names))
        wd = r.choice([d, d, top, '/'])
        val = os.path.relpath(out, d) if r.random() < .3 else out
        env = mk.env_for(ctx, OUTPUT_DIR=val)
        del env['BLOGC']
        env.update({a: b for a, b in r.choice(ENVS).items() if b and a != 'PATH'})
        exe = os.path.join(bins, v, emb if m else 'blogc-make')
        how = r.choice(['full', 'full', 'path', 'rel'])
        cmd = [exe]
        if how == 'path':
            env['PATH'] = os.path.dirname(exe) + ':' + env['PATH']
            cmd = [os.path.basename(exe)]
        elif how == 'rel':
            cmd = [os.path.join('.', os.path.relpath(exe, wd))]
        if m:
            cmd.append('-m')
        if site['dev']:
            cmd.append('-D')
        if wd != d or site['blogcfile'] != 'blogcfile' or r.random() < .3:
            f = os.path.join(d, site['blogcfile'])
            if r.random() < .5:
                f = os.path.relpath(f, wd)
            cmd += r.choice([['-f', f], ['-f' + f]])
        verbose = k > 0 and r.random() < .15
        if verbose:
            cmd.append('-V')
        if how == 'path':
            cmd = ['/usr/bin/env'] + cmd
        p = vlib.run(cmd + rules, env=env, cwd=wd, timeout=60)
        way = '%s%s (%s, %s), rules %r, OUTPUT_DIR=%r, in %s' % ('blogc -m' if m else 'blogc-make', ' -V' if verbose else '', v, how, rules, val, wd)
        ways.append(way)
        res.n += 1
        if res.crash(p, way):
            return
        got = sitegen.read_tree(out) if os.path.isdir(out) else {}
        shutil.rmtree(out, True)
        # relative names of output files in what is said
        text = p.out.replace(val.rstrip('/').encode(), b'OUT')
        if first is None:
            first, rc, said, err = got, p.rc, text, p.err
            continue
        if p.rc != rc or got != first:
            diff = [(f, first.get(f, 'missing'), got.get(f, 'missing')) for f in sorted(set(got) | set(first)) if got.get(f, 0) != first.get(f, 0)]
            res.bad('differs', 'exit %r instead of %r, %d files differ, the first: %r\n%s\nafter\n%s\n%s\n%s' % (
                p.rc, rc, len(diff), [str(x)[:300] for x in diff[:1]], way, ways[0], mk.said(p), err[-500:]))
            return
        if not verbose and len(rules) < 2 and text != said and not (rc and v != 'plain'):
            res.bad('says', 'standard output is %r instead of %r\n%s\nafter\n%s' % (text[:1500], said[:1500], way, ways[0]))
            return
    # other commands
    for args in (['-h'], ['-v'], ['-x'], ['nosuchrule'], ['-f', 'missing'], ['atom_dump'], ['-D', '-x'], ['-f'], ['clean'], ['posts', 'nosuchrule'], ['watch:x']):
        if args == ['watch:x'] or r.random() < .5:
            continue
        ps = []
        for exe, pre in (('blogc-make', []), (emb, ['-m'])):
            env = mk.env_for(ctx, OUTPUT_DIR=os.path.join(top, 'other'))
            del env['BLOGC']
            ps.append(vlib.run([os.path.join(bins, 'plain', exe)] + pre + args + (['-f', os.path.join(d, site['blogcfile'])] if args[0] not in ('-f', '-h', '-v') else []), env=env, cwd=d))
            shutil.rmtree(os.path.join(top, 'other'), True)
        res.n += 1
        if tuple(ps[0]) != tuple(ps[1]):
            res.bad('embedded', 'blogc-make %r: %r\nblogc -m: %r' % (args, ps[0], ps[1]))
            return
    res.sig(case['seed'])
    res.feats['sites' + (' with a mistake' if broken else '')] += 1
    res.feats['site exits %d' % rc] += 1
    res.sample = {'ways': ways}


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
