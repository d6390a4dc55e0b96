"""C07: templates are rendered as blogc-template(7) defines."""
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib  # noqa: E402
import tmpl  # noqa: E402

PID = 'C07'
COUNT = {'quick': 10000, 'thorough': 150000}
RULE = ('random template trees (all blocks, conditionals with else, foreach, variables with truncation and formatting, '
        'white space control, random statement layout), random globals and sources, entry and listing mode; each '
        'template has about a dozen fragments; distinct = different (template, variables, sources) with a non-empty '
        'output; output compared byte for byte with an interpreter of the tree')
MIN_DISTINCT = 100
ASSUMPTIONS = ['FOO_0, quoted operands with backslashes and items of foreach lists separated by other white space than '
               'spaces are left open by the manual and not generated',
               'C02 owns what a variable outside of blocks sees after a skipped block (known finding there)']


def gen(rng, i, tier):
    listing = rng.random() < .65
    ns = rng.choice([0, 1, 1, 2, 3, 5]) if listing else 1
    glob = tmpl.variables(rng, rng.choice([.2, .5, .7]))
    if rng.random() < .6:
        glob['DATE_FORMAT'] = rng.choice(tmpl.DATE_FORMATS)
    srcs = []
    dates = rng.random() < .5
    for _ in range(ns):
        v = tmpl.variables(rng, rng.choice([.1, .4, .7]))
        v.pop('DATE', None)
        if dates:
            v['DATE'] = '2019-0%d-1%d 1%d:00' % (rng.randint(1, 9), rng.randint(0, 9), rng.randint(0, 9))
        if rng.random() < .1:
            v['DATE_FORMAT'] = rng.choice(tmpl.DATE_FORMATS)
        srcs.append(v)
    entries = [rng.choice([None, tmpl.variables(rng, .5), tmpl.variables(rng, .5)])
               for _ in range(rng.choice([0, 0, 1, 2, 3]))] if listing else []
    frags = [tmpl.body(rng, rng.choice([1, 2, 3, 4]), (False, False)) for _ in range(rng.randint(4, 14))]
    return {'frags': frags, 'glob': glob, 'srcs': srcs, 'entries': entries, 'listing': listing,
            'lseed': rng.randrange(1 << 30), 'trim': rng.choice([0, .2, .5])}


def source_text(v, content='x'):
    return ''.join('%s: %s\n' % kv for kv in v.items()) + ('' if v else 'ZZZ: 1\n') + '----\n' + content + '\n'


def run_case(ctx, case):
    res = vlib.Res()
    d = ctx.fresh()
    nodes = []
    for k, f in enumerate(case['frags']):
        nodes.append(['text', '\x01%d\x02' % k])
        nodes += f
    if case['lseed'] % 5:
        nodes.append(['text', '\x01end'])
    nodes = tmpl.normalise(nodes)
    src, toks = tmpl.write(nodes, random.Random(case['lseed']), case['trim'])
    with open(d + '/t', 'w', newline='', encoding='utf-8') as fp:
        fp.write(src)
    cmd = [ctx.asan('blogc'), '-t', 't'] + (['-l'] if case['listing'] else [])
    for k, v in case['glob'].items():
        cmd += ['-D', '%s=%s' % (k, v)]
    glob = dict(case['glob'])
    srcs = []
    for n, v in enumerate(case['srcs']):
        with open(d + '/s%d.txt' % n, 'w', newline='', encoding='utf-8') as fp:
            fp.write(source_text(v))
        srcs.append(dict(v, FILENAME='s%d' % n))
        cmd.append('s%d.txt' % n)
    entries = []
    for n, v in enumerate(case['entries']):
        if v is None:
            cmd += ['-e', '']
            entries.append(None)
            continue
        with open(d + '/e%d.txt' % n, 'w', newline='', encoding='utf-8') as fp:
            fp.write(source_text(v))
        entries.append(dict(v, FILENAME='e%d' % n))
        cmd += ['-e', 'e%d.txt' % n]
    if srcs and all('DATE' in s for s in srcs):
        glob['DATE_FIRST'], glob['DATE_LAST'] = srcs[0]['DATE'], srcs[-1]['DATE']
    feats = {}
    it = tmpl.Interp(toks, glob, srcs, entries, case['listing'], feats)
    try:
        exp = it.run()
    except tmpl.Taint:
        res.feats['left to C02'] += 1
        return res
    r = vlib.run(cmd, cwd=d)
    res.n += 1
    if res.crash(r, 'blogc'):
        return res
    if r.rc != 0:
        res.bad('refused', 'a well-formed template was refused: %s\ntemplate %r' % (
            r.err[-600:].decode('utf-8', 'replace'), src[:3000]))
        return res
    got = r.out.decode('utf-8', 'surrogateescape')
    for k, n in feats.items():
        res.feats[k] += n
    if exp:
        res.sig(src, case['glob'], case['srcs'], case['entries'])
    if got != exp:
        n = next((i for i, (x, y) in enumerate(zip(got, exp)) if x != y), min(len(got), len(exp)))
        res.bad('rendering', 'listing=%s template %r\n globals %r\n sources %r\n entries %r\n expected %r\n got      %r\n at %d' % (
            case['listing'], src[:2500], case['glob'], case['srcs'], case['entries'],
            exp[max(0, n - 200):n + 300], got[max(0, n - 200):n + 300], n))
    elif len(src) < 700 and len(exp) > 30:
        res.sample = {'template': src, 'listing': case['listing'], 'globals': case['glob'], 'output': exp[:500]}
    return res


def drop(nodes):
    """Trees with one node less, or with a statement replaced by its body."""
    for k, n in enumerate(nodes):
        yield nodes[:k] + nodes[k + 1:]
        if n[0] in ('foreach', 'block'):
            for x in drop(n[2]):
                yield nodes[:k] + [[n[0], n[1], x]] + nodes[k + 1:]
        if n[0] == 'cond':
            for x in drop(n[2]):
                yield nodes[:k] + [['cond', n[1], x, n[3]]] + nodes[k + 1:]
            if n[3] is not None:
                yield nodes[:k] + [['cond', n[1], n[2], None]] + nodes[k + 1:]
                for x in drop(n[3]):
                    yield nodes[:k] + [['cond', n[1], n[2], x]] + nodes[k + 1:]


def shrink(case):
    fr = case['frags']
    if len(fr) > 1:
        for k in range(len(fr)):
            yield dict(case, frags=fr[:k] + fr[k + 1:])
    if case['trim']:
        yield dict(case, trim=0)
    for k in range(len(fr)):
        for x in drop(fr[k]):
            yield dict(case, frags=fr[:k] + [x] + fr[k + 1:])
    for key in ('srcs', 'entries'):
        for k in range(len(case[key])):
            if key == 'entries' or case['listing']:
                yield dict(case, **{key: case[key][:k] + case[key][k + 1:]})
            for v in (case[key][k] or {}):
                y = dict(case[key][k])
                del y[v]
                yield dict(case, **{key: case[key][:k] + [y] + case[key][k + 1:]})
    for v in case['glob']:
        y = dict(case['glob'])
        del y[v]
        yield dict(case, glob=y)


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
