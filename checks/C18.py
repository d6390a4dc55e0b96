"""C18: clean removes exactly what was built."""
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import mk  # noqa: E402
import sitegen  # noqa: E402
import vlib  # noqa: E402

PID = 'C18'
VARIANTS = ('asan', 'plain')
COUNT = {'quick': 1400, 'thorough': 40000}
RULE = ('sites built as a whole or in part under many spellings of the output directory, with foreign files and empty directories put into '
        'and around the output, outputs removed by hand or left from older states; the tree after clean must be the tree before it '
        'without the files of the model and the directories they leave empty; distinct = different (site, spelling, foreign files)')
MIN_DISTINCT = 300
ASSUMPTIONS = ['directories emptied by hand before clean may stay or go', 'outputs that are sources at the same time are left open',
               'a symbolic link in the place of the output directory may stay']
SPELL = mk.OUTDIRS + ['oa/b', 'oa/b', 'ABS/x/y', 'p/q/r/s', 'out/.', './/out', 'out/./.', 'LINK', 'LINK/', 'ABS/.', '.', './', 'a//b', './.', 'out/../out2', '../beside/x', '.out', 'blog', 'oa', '...', '..hidden', '-d']


def gen(rng, i, tier):
    r = random.Random(rng.randrange(1 << 40))
    return {'site': sitegen.generate(r, small=r.random() < .4), 'spell': r.choice(SPELL), 'seed': r.randrange(1 << 40),
            'rules': r.choice([[], [], [], [], None, r.sample(sitegen.RULES, r.choice([1, 3]))]),
            'foreign': r.choice([0, 0, 1, 3, 8]), 'around': r.random() < .5, 'removed': r.choice([0, 0, 0, 1, 3]), 'edit': r.random() < .2,
            'elsewhere': r.random() < .3, 'verbose': r.random() < .1}


def outdir(spec, top, d):
    if spec in ('LINK', 'LINK/'):
        os.mkdir(top + '/real')
        os.symlink('../real', d + '/lnk')
        return spec.replace('LINK', 'lnk'), top + '/real'
    for x in ('oq', 'out') if spec and '/../' in spec else ():
        os.mkdir(os.path.join(d, x))
    return mk.outdir(spec, top, d)


def run_case(ctx, case):
    r = random.Random(case['seed'])
    res = vlib.Res()
    site = case['site']
    top = ctx.fresh('w')
    d = os.path.join(top, 'site')
    os.mkdir(d)
    sitegen.write(site, d, r)
    val, out = outdir(case['spell'], top, d)
    src = {os.path.normpath(x) for x in sitegen.tree(site, random.Random(0))}
    files = [p for _, p, _ in sitegen.outputs(site)]
    if {os.path.relpath(os.path.join(out, f), d) for f in files} & (src | sitegen.parents(src)) or sitegen.parents([os.path.relpath(os.path.join(out, f), d) for f in files]) & src:
        val, out = None, os.path.join(d, '_build')
    env = mk.env_for(ctx, OUTPUT_DIR=val)
    cwd = top if case['elsewhere'] else None
    args = ['-V'] if case['verbose'] else []
    info = 'OUTPUT_DIR %r\n%s' % (val, sitegen.blogcfile(site, random.Random(1)))
    if case['rules'] is not None:
        p = mk.make(ctx, d, case['rules'], env=env, site=site, cwd=cwd)
        if res.crash(p, 'blogc-make'):
            return res
        if p.rc != 0:
            res.bad('status', 'blogc-make failed\n%s\n%s' % (mk.said(p), info))
            return res
    if case['edit'] and len(site['posts']) > 1:
        # posts go away, their files stay
        for _ in range(r.choice([1, 2])):
            if len(site['posts']) > 1:
                site['posts'].pop()
        sitegen.write(site, d, r)
        files = [p for _, p, _ in sitegen.outputs(site)]
    emptied = False
    for f in r.sample(files, min(len(files), case['removed'])):
        if os.path.exists(os.path.join(out, f)):
            os.unlink(os.path.join(out, f))
            emptied = True
    dirs = sorted(x for x in sitegen.parents(files) if os.path.isdir(os.path.join(out, x)))
    if dirs and r.random() < .1:
        # a directory of the output lives elsewhere
        x = r.choice(dirs)
        os.rename(os.path.join(out, x), os.path.join(top, 'moved'))
        os.symlink(os.path.join(top, 'moved'), os.path.join(out, x))
        emptied = True
        res.feats['linked directories'] += 1
    foreign(r, case, site, top, d, out, files)
    before = sitegen.read_tree(top)
    p = mk.make(ctx, d, ['clean'], env=env, site=site, cwd=cwd, args=args)
    if res.crash(p, 'blogc-make clean'):
        return res
    if p.rc != 0:
        res.bad('status', 'blogc-make clean failed\n%s\n%s' % (mk.said(p), info))
        return res
    after = sitegen.read_tree(top)
    rel = os.path.relpath(out, top)
    built = {os.path.relpath(os.path.realpath(os.path.join(out, f)), os.path.realpath(top)) for f in files} & set(before)
    left = set(before) - built
    gone = set()
    for q in sorted((x for x in before if before[x] is None and (x == rel or x.startswith(rel + '/'))), key=len, reverse=True):
        inside = [x for x in before if x.startswith(q + '/')]
        if any(x in built for x in inside) and not any(x in left and x not in gone for x in inside):
            gone.add(q)
    res.n += len(before)
    for x in sorted(set(before) | set(after)):
        if x not in before:
            res.bad('new', '%r appeared\n%s' % (x, info))
        elif x in built:
            if x in after:
                res.bad('left', '%r is still there\n%s\n%s' % (x, info, mk.said(p)))
        elif x in gone:
            if x in after and not emptied and not (x == rel and case['spell'] in ('LINK', 'LINK/')):
                res.bad('left', 'the empty directory %r is still there\n%s\n%s' % (x, info, mk.said(p)))
        elif x not in after:
            if before[x] is None and emptied and not any(y.startswith(x + '/') for y in after):
                continue
            res.bad('removed', '%r was removed, it is no output\n%s\n%s' % (x, info, mk.said(p)))
        elif before[x] != after[x]:
            res.bad('changed', '%r was changed\n%s' % (x, info))
        if res.viol:
            return res
    p = mk.make(ctx, d, ['clean'], env=env, site=site, cwd=cwd, args=args)
    if res.crash(p, 'blogc-make clean'):
        return res
    if p.rc != 0 or sitegen.read_tree(top) != after:
        res.bad('again', 'a second clean failed or changed something\n%s\n%s' % (info, mk.said(p)))
        return res
    res.feats['files removed'] += len(built)
    res.feats['directories removed'] += len(gone)
    res.feats['other entries kept'] += len(left) - len(gone)
    res.feats['output directories kept'] += rel in left
    res.feats['spelling %r' % case['spell']] += 1
    res.sig(info, case['foreign'], case['rules'], case['seed'])
    res.sample = {'OUTPUT_DIR': val, 'removed': sorted(built | gone)[:12], 'kept': sorted(left - gone)[:12]}
    return res


def foreign(r, case, site, top, d, out, files):
    """files and directories of somebody else"""
    dirs = sorted(x for x in sitegen.parents(files) if os.path.isdir(os.path.join(out, x)))
    for k in range(case['foreign']):
        base = os.path.join(out, r.choice(dirs) if dirs and r.random() < .6 else '')
        name = r.choice(['keep%d', 'index.html~', 'Index.html', '.hidden%d', '9/index.html', 'unlisted/index.html', 'index.htm', 'x/y/z%d', 'page/99/index.html', 'ü%d', 'blogcfile', 'content', 'main.tmpl'])
        name = name % k if '%' in name else name
        f = os.path.join(base, name)
        rel = os.path.relpath(f, out)
        if rel in files or os.path.lexists(f) or any(x.startswith(rel + '/') for x in files) or sitegen.parents([rel]) & set(files):
            continue
        x = r.random()
        try:
            os.makedirs(os.path.dirname(f), exist_ok=True)
            if x < .65:
                with open(f, 'w') as fp:
                    fp.write('foreign %d' % k)
            elif x < .85:
                os.mkdir(f)
            else:
                os.symlink(r.choice(['nowhere', d, d + '/blogcfile', '.']), f)
        except (FileExistsError, NotADirectoryError):
            pass
    if case['around']:
        for base in {os.path.dirname(out), d, top}:
            for n in ('_build2', '_buil', 'index.html', 'beside.txt', 'post/x.html', 'out3'):
                f = os.path.join(base, n)
                q = os.path.relpath(f, out)
                if os.path.lexists(f) or q in files or not os.path.isdir(base) or any(x.startswith(q + '/') for x in files) or r.random() < .4:
                    continue
                if not q.startswith('../') and sitegen.parents([q]) & set(files):
                    continue
                try:
                    sitegen.put(f, 'around')
                except (FileExistsError, NotADirectoryError):
                    pass


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
