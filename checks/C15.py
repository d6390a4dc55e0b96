"""C15: blogc-make builds exactly the documented files, with the documented content."""
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import mk  # noqa: E402
import sitegen  # noqa: E402
import vlib  # noqa: E402

PID = 'C15'
VARIANTS = ('asan', 'plain')
COUNT = {'quick': 1400, 'thorough': 40000}
RULE = ('generated sites (all settings, posts, pages, tags, copies, custom and default feed templates) are built as a whole or by '
        'some rules in some order; the output directory must hold exactly the files of an independent model of blogcfile(5) with '
        'the content computed by that model; distinct = different (settings, number of files, rules)')
MIN_DISTINCT = 300
ASSUMPTIONS = ['sites in which two rules build the same path, or a path below a file, are left open', 'whether a page of an empty tag has a LAST_PAGE is left open']


def gen(rng, i, tier):
    r = random.Random(rng.randrange(1 << 40))
    site = sitegen.generate(r)
    if r.random() < .15:
        site['blogcfile'] = r.choice(['site.ini', 'my blogcfile', 'é.ini'])
    rules = []
    if r.random() < .35:
        rules = r.choice([['all'], r.sample(sitegen.RULES, r.choice([1, 2, 3, 9])), ['clean', 'all']])
    return {'site': site, 'rules': rules, 'outdir': r.choice(mk.OUTDIRS), 'elsewhere': r.random() < .25, 'seed': r.randrange(1 << 30),
            'asan_blogc': r.random() < .05, 'verbose': r.random() < .1, 'make_env': r.random() < .1}


def run_case(ctx, case):
    r = random.Random(case['seed'])
    res = vlib.Res()
    site = case['site']
    top = ctx.fresh('w')
    d = os.path.join(top, 'site dir' if case['seed'] % 5 == 0 else 'site')
    os.mkdir(d)
    sitegen.write(site, d, r)
    before = sitegen.read_tree(top)
    val, out = mk.outdir(case['outdir'], top, d)
    env = mk.env_for(ctx, case['asan_blogc'], OUTPUT_DIR=val)
    if case['outdir'] == 'oq/../z':
        os.mkdir(os.path.join(d, 'oq'))
        before = sitegen.read_tree(top)
    if case['make_env']:
        env['MAKEFLAGS'] = ''
        site['settings']['run_from_make'] = 'true'
        with open(os.path.join(d, site['blogcfile']), 'w') as fp:
            fp.write(sitegen.blogcfile(site, r))
        before = sitegen.read_tree(top)
    p = mk.make(ctx, d, case['rules'], env=env, site=site, cwd=top if case['elsewhere'] else None, args=['-V'] if case['verbose'] else [])
    if res.crash(p, 'blogc-make %r' % case['rules']):
        return res
    if p.rc != 0:
        res.bad('status', 'blogc-make failed\n%s\n%s' % (mk.said(p), sitegen.blogcfile(site, r)))
        return res
    rules = case['rules'] if case['rules'] and 'all' not in case['rules'] else sitegen.RULES
    rules = [x for x in sitegen.RULES if x in rules]
    got = sitegen.read_tree(out) if os.path.isdir(out) else {}
    w = sitegen.judge_tree(site, got, rules)
    res.n += len(got) + 1
    if w:
        res.bad(w[0], '%s\nrules %r, OUTPUT_DIR %r\n%s' % (w[1], case['rules'], val, sitegen.blogcfile(site, r)))
        return res
    # nothing else was written anywhere
    after = sitegen.read_tree(top)
    rel = os.path.relpath(out, top)
    for x in sorted(set(after) | set(before)):
        if (x == rel or x.startswith(rel + '/') or (rel + '/').startswith(x + '/')) and x not in before:
            continue
        if before.get(x, 0) != after.get(x, 0):
            res.bad('elsewhere', 'changed outside of the output directory: %r\nOUTPUT_DIR %r' % (x, val))
            return res
    for rule, path, info in sitegen.outputs(site, rules):
        res.feats['files of ' + rule] += 1
    for k, v in site['settings'].items():
        res.feats['setting ' + k] += 1
    res.sig(sorted(site['settings'].items()), len(got), rules, len(site['tags']), val)
    res.sample = {'settings': site['settings'], 'posts': len(site['posts']), 'tags': site['tags'], 'files': sorted(got)[:6]}
    return res


def shrink(case):
    s = case['site']

    def but(**kw):
        c = dict(case)
        c['site'] = dict(s, **kw)
        return c
    for k in ('posts', 'pages', 'tags', 'copy'):
        if s[k]:
            yield but(**{k: s[k][:len(s[k]) // 2]})
            for j in range(len(s[k])):
                yield but(**{k: s[k][:j] + s[k][j + 1:]})
    for k in s['settings']:
        if k != 'listing_entry':
            yield but(settings={a: b for a, b in s['settings'].items() if a != k})
    for k, v in (('outdir', None), ('elsewhere', False), ('verbose', False), ('rules', [])):
        if case[k] != v:
            yield dict(case, **{k: v})


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
