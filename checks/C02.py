"""C02: variables of a source file reach the template exactly as written."""
import copy
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib  # noqa: E402
import tmpl  # noqa: E402

PID = 'C02'
COUNT = {'quick': 12000, 'thorough': 120000}
RULE = ('sources with random keys (prefixes of each other, repeated, digits, underscores), values of random printable, '
        'UTF-8, markup and template characters, random white space and line endings, globals of the same names, names of the compiler; every key '
        'is shown and tested with ifdef in every block and outside of blocks, in entry and listing mode with listing '
        'entries; distinct = different set of sources and globals')
MIN_DISTINCT = 300
ASSUMPTIONS = ['in entry mode, what text outside of blocks sees after a skipped block is a known finding and judged apart']
PARTS = ['a', 'b', ' ', '  ', '\t', ':', '=', '-', '---', '{{ A }}', '{% endif %}', '{%', '}}', '%', '%s', '%n', '\\', '\\n', '"', "'", '<b>',
         '&amp;', 'é', 'ß', '日本', '😀', '\u00a0', '\u2003', '\u0085', 'e\u0301', '#', '$HOME', '`x`', ';', '|', '*', '_', '[', ']', '(', ')',
         '0', '42', 'word', 'Some Words', '\v', '\f', '\x7f', '.', ',', '!', '\ufeff', '\u202e', '~', '^', '@', '>', '/', '?', '\x1b', '\x08']
STRIP = ' \t\n\v\f\r'


def key(r, pool):
    k = r.random()
    if pool and k < .35:
        return r.choice(pool) + r.choice(['S', '_', 'A', '2', '_X', '_A1', '_5', '_12', '_FORMATTED'])
    if pool and k < .45:
        return r.choice(pool)[:r.randint(1, 3)]
    if k < .5:
        return r.choice(['TITLE', 'TAGS', 'DATE_FORMAT', 'AUTHOR_NAME', 'SITE_TITLE', 'PAGE', 'FILE', 'FILENAMES', 'CONTENTS', 'CONTEN',
                         'PAGE_FIRSTS', 'DATE_FORMATTED_X', 'BLOGC_VERSIO', 'PAGE_NEX', 'FOREACH', 'C', 'c'.upper(), 'DATE_FIRSTS'])
    return r.choice('ABCXYZ') + ''.join(r.choice('ABCXYZ019__') for _ in range(r.choice([0, 0, 1, 2, 3, 5, 12])))


RESERVED = {'FILENAME', 'CONTENT', 'DATE_FORMATTED', 'DATE_FIRST_FORMATTED', 'DATE_LAST_FORMATTED', 'PAGE_FIRST', 'PAGE_PREVIOUS',
            'PAGE_CURRENT', 'PAGE_NEXT', 'PAGE_LAST', 'BLOGC_VERSION', 'RAW_CONTENT', 'EXCERPT', 'DATE', 'TOCTREE', 'TOCTREE_MAXDEPTH',
            'FIRST_HEADER', 'DESCRIPTION', 'CURRENT_PAGE', 'DATE_FIRST', 'DATE_LAST', 'FILENAME_FIRST', 'FILENAME_LAST', 'FIRST_PAGE',
            'LAST_PAGE', 'PREVIOUS_PAGE', 'NEXT_PAGE', 'FOREACH_ITEM', 'FOREACH_VALUE'}


# set by the compiler, refused in sources
OWN = ['FILENAME', 'CONTENT', 'DATE_FORMATTED', 'DATE_FIRST_FORMATTED', 'DATE_LAST_FORMATTED', 'PAGE_FIRST', 'PAGE_PREVIOUS', 'PAGE_CURRENT',
       'PAGE_NEXT', 'PAGE_LAST', 'BLOGC_VERSION']


def ok_key(k):
    return k not in RESERVED and not (k.startswith('DATE') and '_FORMATTED' in k) and not k.startswith('FILTER_') and not k.endswith('_0') and not k.endswith('0')


def value(r, nl=False):
    n = r.choice([0, 1, 1, 2, 3, 5, 9, 40]) if r.random() < .97 else 1500
    v = ''.join(r.choice(PARTS) for _ in range(n))
    if nl and r.random() < .2:
        v += r.choice(['\n', 'x\ny', ' ', '\r\n z'])
    return v


def gen(rng, i, tier):
    r = rng
    pool = []
    while len(pool) < r.randint(1, 9):
        k = key(r, pool)
        if ok_key(k) and k not in pool:
            pool.append(k)

    def source():
        lines = []
        for _ in range(r.choice([0, 1, 2, 4, 8, 14])):
            k = r.choice(pool)
            lines.append([k, value(r).strip(STRIP), r.choice(['', ' ', ' ', ' ', '\t', '   ', ' \v ', '\f']),
                          r.choice(['', '', '', ' ', '\t ', '\v', ' \f']),
                          r.choice(['', '', '', '', ' ', '\t']), r.choice([0, 0, 0, 0, 1, 2])])
        return {'lines': lines, 'eol': r.choice(['\n', '\n', '\n', '\r\n', '\r', '\n\r']), 'sep': r.choice([1, 2, 5, 30]),
                'content': r.choice(['x', 'some text\n', '', 'A: not a key\n', '# H\n']), 'bom': r.random() < .05,
                'nosep': r.random() < .05}
    listing = r.random() < .6
    segs = []
    for _ in range(r.choice([1, 2, 3, 4, 6])):
        segs.append(r.choice(['outside', 'entry', 'listing', 'listing_once', 'listing_empty', 'listing_entry', 'outside',
                              'entry' if not listing else 'listing']))
    own = None
    if r.random() < .06:
        own = [r.choice(OWN), r.randrange(99), r.randrange(99)]
    return {'own': own, 'pool': pool, 'glob': {k: value(r, True) for k in pool if r.random() < .35}, 'listing': listing, 'segs': segs,
            'srcs': [source() for _ in range(r.choice([0, 1, 2, 4]) if listing else 1)],
            'entries': [source() if r.random() < .8 else None for _ in range(r.randint(0, 3))] if listing else [],
            'trim': r.random() < .3}


def write(s):
    out = '\ufeff' if s['bom'] else ''
    e = s['eol']
    lines = s['lines'] or [['ZZZZ', '1', ' ', '', '', 0]]
    for k, v, a, b, lead, blank in lines:
        out += e * blank + lead + k + ':' + a + v + b + e
    if not s['nosep']:
        out += '-' * s['sep'] + e + s['content'].replace('\n', e)
    return out.encode()


def variables(s, name):
    v = {k: x for k, x, *_ in s['lines']}
    v['FILENAME'] = name
    return v


def run_case(ctx, case):
    res = vlib.Res()
    d = ctx.fresh()
    case = copy.deepcopy(case)
    all_ = [s for s in case['srcs'] + case['entries'] if s]
    own = case.get('own') if all_ else None
    if own:
        s = all_[own[1] % len(all_)]
        s['lines'].insert(own[2] % (len(s['lines']) + 1), [own[0], 'x' * (own[2] % 3), ' ', '', '', 0])
    names = case['pool'] + ['FILENAME', 'UNDEFINEDX']
    seg = ''.join('\x01%s\x02{%% ifdef %s %%}D{%% else %%}U{%% endif %%}\x02{{ %s }}' % (n, n, n) for n in names)
    t = ''
    glob = dict(case['glob'])
    srcs = [variables(s, 's%d' % n) for n, s in enumerate(case['srcs'])]
    entries = [None if s is None else variables(s, 'e%d' % n) for n, s in enumerate(case['entries'])]
    genv = dict(glob)
    if srcs:
        # page variables of a listing, and of a single entry too
        genv['FILENAME_FIRST'], genv['FILENAME_LAST'] = srcs[0]['FILENAME'], srcs[-1]['FILENAME']

    def show(env):
        return ''.join('\x01%s\x02%s\x02%s' % (n, 'U' if env.get(n) is None else 'D', env.get(n) or '') for n in names)
    exp = []     # (label, expected text, text if the entry's variables leak)
    left = list(entries)
    entry_seen = skipped = False
    for s in case['segs']:
        if s == 'outside':
            t += '\x03' + seg
            leak = show(tmpl.Env(genv, srcs[0])) if not case['listing'] and entry_seen and skipped else None
            exp.append(('outside of blocks', '\x03' + show(tmpl.Env(genv)), leak and '\x03' + leak))
            continue
        t += '{%% block %s %%}\x03%s{%% endblock %%}' % (s, seg)
        ran = True
        if s == 'entry':
            ran = not case['listing']
            if ran:
                entry_seen, skipped = True, False
                exp.append((s, '\x03' + show(tmpl.Env(genv, srcs[0])), None))
        elif s == 'listing':
            ran = case['listing'] and srcs
            if ran:
                exp += [(s, '\x03' + show(tmpl.Env(genv, x)), None) for x in srcs]
        elif s == 'listing_once':
            ran = case['listing']
            if ran:
                exp.append((s, '\x03' + show(tmpl.Env(genv)), None))
        elif s == 'listing_empty':
            ran = case['listing'] and not srcs
            if ran:
                exp.append((s, '\x03' + show(tmpl.Env(genv)), None))
        else:
            e = left.pop(0) if left else None
            ran = case['listing'] and e is not None
            if ran:
                exp.append((s, '\x03' + show(tmpl.Env(genv, e)), None))
        if not ran:
            skipped = True
    with open(d + '/t', 'w', newline='') as fp:
        fp.write(t)
    cmd = [ctx.asan('blogc'), '-t', 't'] + (['-l'] if case['listing'] else [])
    for k, v in glob.items():
        cmd += ['-D', '%s=%s' % (k, v)]
    for n, s in enumerate(case['srcs']):
        with open(d + '/s%d.txt' % n, 'wb') as fp:
            fp.write(write(s))
        cmd.append('s%d.txt' % n)
    for n, s in enumerate(case['entries']):
        if s is None:
            cmd += ['-e', '']
            continue
        with open(d + '/e%d.txt' % n, 'wb') as fp:
            fp.write(write(s))
        cmd += ['-e', 'e%d.txt' % n]
    r = vlib.run(cmd, cwd=d)
    res.n += 1
    if res.crash(r, 'blogc'):
        return res
    if own:
        res.feats['own name of the compiler'] += 1
        if r.rc == 0 or r.out or not r.err:
            res.bad('own name', '%s in a source: exit %r, output %r, message %r' % (own[0], r.rc, r.out[:300], r.err[:300]))
        return res
    what = 'sources %r\nentries %r\nglobals %r\nsegments %r listing=%s' % (
        case['srcs'], case['entries'], case['glob'], case['segs'], case['listing'])
    if r.rc != 0:
        res.bad('refused', 'valid sources were refused: %s\n%s' % (r.err[-500:].decode('utf-8', 'replace'), what[:2500]))
        return res
    got = ['\x03' + x for x in r.out.decode('utf-8', 'surrogateescape').split('\x03')[1:]]
    if exp:
        res.sig(case['srcs'], case['entries'], case['glob'], case['segs'])
    if len(got) != len(exp) or (not exp and r.out):
        res.bad('segments', 'expected %d segments, got %d\n%s' % (len(exp), len(got), what[:3000]))
        return res
    for (label, e, leak), g in zip(exp, got):
        res.feats[label] += 1
        if e == g:
            continue
        if leak is not None and g == leak:
            res.bad('entry variables outside of blocks after a skipped block',
                    'in entry mode, text outside of blocks that follows a skipped block shows the variables of the entry\n' + what[:1500])
            continue
        es, gs = e.split('\x01'), g.split('\x01')
        k = next((i for i, (x, y) in enumerate(zip(es, gs)) if x != y), 0)
        res.bad('value', '%s: expected %r, got %r\n%s' % (label, es[k], gs[k] if k < len(gs) else g, what[:2500]))
        break
    else:
        if len(what) < 900 and exp:
            res.sample = {'sources': [write(s).decode() for s in case['srcs']], 'globals': case['glob'], 'output': r.out.decode()[:600]}
    return res


def shrink(case):
    for k in range(len(case['segs'])):
        yield dict(case, segs=case['segs'][:k] + case['segs'][k + 1:])
    for key_ in ('srcs', 'entries'):
        if key_ == 'entries' or case['listing']:
            for k in range(len(case[key_])):
                yield dict(case, **{key_: case[key_][:k] + case[key_][k + 1:]})
        for k, s in enumerate(case[key_]):
            for j in range(len(s['lines']) if s else 0):
                s2 = dict(s, lines=s['lines'][:j] + s['lines'][j + 1:])
                yield dict(case, **{key_: case[key_][:k] + [s2] + case[key_][k + 1:]})
    for k in case['glob']:
        yield dict(case, glob={x: y for x, y in case['glob'].items() if x != k})
    for k in range(len(case['pool'])):
        yield dict(case, pool=case['pool'][:k] + case['pool'][k + 1:])


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
