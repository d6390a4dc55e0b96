"""C05: EXCERPT, FIRST_HEADER, DESCRIPTION, RAW_CONTENT and FILENAME agree with
the content they are derived from."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib  # noqa: E402
import gencontent as gc  # noqa: E402

PID = 'C05'
COUNT = {'quick': 3500, 'thorough': 40000}
PER = 40
RULE = ('random documents generated with their HTML (see C03), random file names, with and without FIRST_HEADER and '
        'DESCRIPTION written in the source; distinct = different source; each derived variable is compared with the '
        'one that follows from the generated structure')
MIN_DISTINCT = 100
WS = ' \t\n\v\f\r'
VARS = ['CONTENT', 'RAW_CONTENT', 'EXCERPT', 'FIRST_HEADER', 'DESCRIPTION', 'FILENAME']
SEP = '\x01|\x02'


def fname(rng, j):
    base = rng.choice(['post', 'a b', 'x.y', 'ção', "it's", 'foo-bar', 'UP', '日本', 'a..b', '100%', 'v1.2.3', '#x', '$HOME'])
    base = '%s%d' % (base, j) if rng.random() < .8 else '%d%s' % (j, base)
    ext = rng.choice(['.txt', '.txt', '.txt', '', '.md', '.', '.tar', '.t x', '.é'])
    d = rng.choice(['', '', '', 'sub/', './', 'd.ir/', 'd.ir/sub/', '../w/', 'a b/'])
    name = base + ext
    # the last extension goes away
    stem = name[:name.rindex('.')] if '.' in name else name
    return d + name, stem


def gen(rng, i, tier):
    docs = []
    for j in range(PER):
        blocks = gc.document(rng)
        if rng.random() < .25:
            # an excerpt separator somewhere, also as the first or last block
            g = gc.G(rng)
            e = g.excerpt()
            e['sep'] = '\n\n'
            blocks.insert(rng.randint(0, len(blocks)), e)
            k = blocks.index(e)
            if k:
                blocks[k - 1]['sep'] = '\n\n'
        elif rng.random() < .4:
            blocks = [b for b in blocks if b['kind'] != 'ex'] or blocks
        path, stem = fname(rng, j)
        docs.append({'b': [[b['kind'], b['src'], b['html'], b['sep'], b.get('title')] for b in blocks],
                     'eol': rng.choice(gc.EOLS), 'tail': rng.choice(['\n', '\n', '', '\n\n']),
                     'lead': rng.choice(['', '', '', '\n', '\n\n\n']),
                     'fh': rng.choice([None, None, None, 'Own <b>header</b>', '']),
                     'de': rng.choice([None, None, None, 'Own & description', '']),
                     'none': rng.choice([0] * 20 + [1, 2]),
                     'path': path, 'stem': stem})
    return {'docs': docs, 'single': rng.random() < .15}


def strip(s):
    return s.strip(WS)


def expected(doc):
    """(file text, expected values)"""
    e = doc['eol']
    head = 'AUTHOR: x' + e
    exp = dict.fromkeys(VARS)
    exp['FILENAME'] = doc['stem']
    if doc['fh'] is not None:
        head += 'FIRST_HEADER: ' + doc['fh'] + e
        exp['FIRST_HEADER'] = doc['fh']
    if doc['de'] is not None:
        head += 'DESCRIPTION: ' + doc['de'] + e
        exp['DESCRIPTION'] = doc['de']
    if doc['none']:
        return head + ('' if doc['none'] == 1 else '-----' + e + doc['lead'].replace('\n', e)), exp
    src = ''.join(b[1] + b[3] for b in doc['b'][:-1]) + doc['b'][-1][1]
    html = ''.join(b[2] for b in doc['b'])
    full, html = gc.finish(src, html, e, doc['tail'])
    body_eol = e if '\n' in src + doc['tail'] else '\n'
    pre = ''
    exp['EXCERPT'] = html
    for b in doc['b']:
        if b[0] == 'ex' and pre:
            exp['EXCERPT'] = pre.replace('\n', body_eol)
            break
        pre += b[2]
    exp['CONTENT'] = html
    exp['RAW_CONTENT'] = full
    if doc['fh'] is None:
        t = next((b[4] for b in doc['b'] if b[0] == 'h'), None)
        if t is not None:
            exp['FIRST_HEADER'] = gc.esc(t)
    if doc['de'] is None:
        t = next((b[1] for b in doc['b'] if b[0] == 'p'), None)
        if t is not None:
            exp['DESCRIPTION'] = gc.esc(strip(' '.join(strip(x) for x in t.split('\n'))))
    return head + '---' + e + doc['lead'].replace('\n', e) + full, exp


def run_case(ctx, case):
    res = vlib.Res()
    top = ctx.fresh()
    d = top + '/w'
    for x in ('w', 'w/sub', 'w/d.ir', 'w/d.ir/sub', 'w/a b'):
        os.makedirs(os.path.join(top, x), exist_ok=True)
    block = 'entry' if case['single'] else 'listing'
    with open(d + '/TEMPLATE', 'w') as fp:
        fp.write('{% block ' + block + ' %}' + SEP.join('{% ifdef ' + v + ' %}={{ ' + v + ' }}{% endif %}' for v in VARS)
                 + '\x03\x03{% endblock %}')
    docs = case['docs'][:4] if case['single'] else case['docs']
    exps, args = [], []
    for doc in docs:
        text, exp = expected(doc)
        with open(os.path.join(d, doc['path']), 'w', newline='', encoding='utf-8') as fp:
            fp.write(text)
        exps.append((text, exp))
        args.append(os.path.join(d, doc['path']) if case['single'] and not doc['path'].startswith('..') else doc['path'])
    got = []
    for a in ([[x] for x in args] if case['single'] else [args]):
        r = vlib.run([ctx.asan('blogc'), '-t', 'TEMPLATE'] + ([] if case['single'] else ['-l']) + a, cwd=d)
        if res.crash(r, 'blogc'):
            return res
        if r.rc != 0:
            res.bad('exit status', 'blogc exited %s: %s' % (r.rc, r.err[-500:]))
            return res
        got += r.out.decode('utf-8', 'surrogateescape').split('\x03\x03')[:-1]
    if len(got) != len(docs):
        res.bad('entry count', '%d of %d' % (len(got), len(docs)))
        return res
    for doc, (text, exp), g in zip(docs, exps, got):
        vals = g.split(SEP)
        res.n += 1
        res.sig(text, doc['path'])
        if len(vals) != len(VARS):
            res.bad('template', 'unexpected output %r' % g[:500])
            continue
        for v, x in zip(VARS, vals):
            x = x[1:] if x.startswith('=') else None
            res.feats[v + (' defined' if exp[v] is not None else ' undefined')] += 1
            if v == 'CONTENT' and exp[v] is not None:
                continue            # C03's subject
            if x != exp[v]:
                res.bad(v, '%s of %r\n source %r\n expected %r\n got      %r' % (
                    v, doc['path'], text[:1500], exp[v] and exp[v][:1200], x and x[:1200]))
        if exp['EXCERPT'] != exp['CONTENT']:
            res.feats['real excerpt'] += 1
        if res.sample is None and exp['DESCRIPTION'] and exp['FIRST_HEADER']:
            res.sample = {'path': doc['path'], 'source': text[:600], 'FIRST_HEADER': exp['FIRST_HEADER'],
                          'DESCRIPTION': exp['DESCRIPTION']}
        if len(res.viol) > 3:
            break
    return res


def shrink(case):
    if len(case['docs']) > 1:
        for x in case['docs']:
            yield {'docs': [x], 'single': case['single']}
        return
    doc = case['docs'][0]
    for k in range(len(doc['b'])):
        if len(doc['b']) > 1:
            yield {'docs': [dict(doc, b=doc['b'][:k] + doc['b'][k + 1:])], 'single': case['single']}
    for k, v in (('eol', '\n'), ('lead', ''), ('fh', None), ('de', None)):
        if doc[k] != v:
            yield {'docs': [dict(doc, **{k: v})], 'single': case['single']}


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
