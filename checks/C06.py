"""C06: TOCTREE lists every header within the limit once, in order, nested by level."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib  # noqa: E402
import gencontent as gc  # noqa: E402

PID = 'C06'
COUNT = {'quick': 3000, 'thorough': 40000}
PER = 40
RULE = ('random sequences of headers (levels 1 to 9, random inline markup) among other blocks, with random local and '
        'global limits; distinct = different (source, limits); the parsed TOCTREE is compared with the headers')
MIN_DISTINCT = 100
SEP = '\x01|\x02'


def gen(rng, i, tier):
    docs = []
    for j in range(PER):
        g = gc.G(rng)
        maxlevel = rng.choice([1, 2, 3, 4, 6, 9])
        low = rng.randint(1, maxlevel)
        blocks = []
        for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 12])):
            b = g.header(maxlevel)
            if b['level'] < low:
                # documents that do not start at level one
                n = low
                b['src'] = '#' * (n - b['level']) + b['src']
                b['html'] = '<h%d%s</h%d>\n' % (n, b['html'][3:-6], n)
                b['level'] = n
            b['sep'] = rng.choice(['\n', '\n\n', '\n\n\n'])
            blocks.append(b)
        for _ in range(rng.randint(0, 3)):
            b = g.block(2, False)
            if b['kind'] == 'h':
                continue
            b['sep'] = '\n\n'
            blocks.insert(rng.randint(0, len(blocks)), b)
        if not blocks:
            b = g.paragraph()
            b['sep'] = '\n\n'
            blocks = [b]
        docs.append({'b': [[b['kind'], b['src'], b['html'], b['sep'], b.get('level'), b.get('slug'), b.get('thtml')]
                           for b in blocks],
                     'eol': rng.choice(gc.EOLS[:3]), 'tail': rng.choice(['\n', '', '\n\n']),
                     'max': rng.choice([None, None, '0', '1', '2', '3', '4', '-1', '-7', '100', ' 2', '+1', '2147483647']),
                     'own': rng.choice([None] * 12 + ['<ul>mine</ul>', ''])})
    return {'docs': docs, 'max': rng.choice([None, None, '0', '1', '2', '3', '-1', '9', '2x'])}


TOK = re.compile(r'<ul>|</ul>|<li>(.*?)</li>|([^\s<][^<]*)', re.S)


def parse_toc(s):
    """[(depth, href, text)] or a string saying what is malformed."""
    pos, depth, out, closed = 0, 0, [], False
    while pos < len(s):
        if s[pos].isspace():
            pos += 1
            continue
        if s.startswith('<ul>', pos):
            if closed:
                return 'more than one list'
            depth += 1
            pos += 4
        elif s.startswith('</ul>', pos):
            depth -= 1
            if depth < 0:
                return 'list closed twice'
            closed = depth == 0
            pos += 5
        elif s.startswith('<li>', pos):
            if depth < 1:
                return 'item outside of a list'
            m = re.compile(r'<li><a href="#([^"]*)">', re.S).match(s, pos)
            if not m:
                return 'item without link: %r' % s[pos:pos + 80]
            e = re.compile(r'</a></li>(?=\s*<(?:li>|/?ul>))', re.S).search(s, m.end())
            if not e:
                return 'unterminated item'
            out.append((depth, m.group(1), s[m.end():e.start()]))
            pos = e.end()
        else:
            return 'stray text %r' % s[pos:pos + 60]
    if depth:
        return 'list not closed'
    return out


def run_case(ctx, case):
    res = vlib.Res()
    d = ctx.fresh()
    with open(d + '/t', 'w') as fp:
        fp.write('{% block listing %}{% ifdef TOCTREE %}={{ TOCTREE }}{% endif %}' + SEP + '{{ CONTENT }}\x03\x03{% endblock %}')
    args, exps = [], []
    for j, doc in enumerate(case['docs']):
        e = doc['eol']
        head = 'A: b' + e
        if doc['max'] is not None:
            head += 'TOCTREE_MAXDEPTH: ' + doc['max'] + e
        if doc['own'] is not None:
            head += 'TOCTREE: ' + doc['own'] + e
        src = ''.join(b[1] + b[3] for b in doc['b'][:-1]) + doc['b'][-1][1]
        full, _ = gc.finish(src, '', e, doc['tail'])
        with open(d + '/%d.txt' % j, 'w', newline='', encoding='utf-8') as fp:
            fp.write(head + '---' + e + full)
        args.append('%d.txt' % j)
        lim = doc['max'] if doc['max'] is not None else case['max']
        lim = -1 if lim is None else int(re.match(r'\s*[+-]?\d+', lim).group())
        hs = [(b[4], b[5], b[6]) for b in doc['b'] if b[0] == 'h']
        if doc['own'] is not None:
            exps.append(doc['own'])
        elif lim == 0 or not hs:
            exps.append(None)
        else:
            low = min(h[0] for h in hs)
            exps.append([(h[0] - low + 1, h[1], h[2]) for h in hs if lim < 0 or h[0] - low < lim])
    r = vlib.run([ctx.asan('blogc'), '-l', '-t', 't'] + (['-D', 'TOCTREE_MAXDEPTH=' + case['max']] if case['max'] else [])
                 + args, cwd=d)
    if res.crash(r, 'blogc'):
        return res
    if r.rc != 0:
        res.bad('exit status', 'blogc exited %s: %s' % (r.rc, r.err[-500:]))
        return res
    got = r.out.decode('utf-8', 'surrogateescape').split('\x03\x03')[:-1]
    if len(got) != len(args):
        res.bad('entry count', '%d of %d' % (len(got), len(args)))
        return res
    for j, (doc, exp, g) in enumerate(zip(case['docs'], exps, got)):
        res.n += 1
        toc, content = g.split(SEP)
        toc = toc[1:] if toc.startswith('=') else None
        res.sig(doc['b'], doc['max'], case['max'])
        src = ''.join(b[1] + b[3] for b in doc['b'])
        what = 'local limit %r, global %r, source %r' % (doc['max'], case['max'], src[:1200])
        if exp is None or isinstance(exp, str):
            res.feats['absent' if exp is None else 'own'] += 1
            if toc != exp:
                res.bad('presence', 'TOCTREE is %r, expected %r (%s)' % (toc, exp, what))
            continue
        res.feats['items %d' % min(len(exp), 12)] += 1
        if toc is None:
            res.bad('presence', 'TOCTREE is not defined (%s)' % what)
            continue
        p = parse_toc(toc)
        if isinstance(p, str):
            res.bad('malformed', '%s in %r (%s)' % (p, toc[:1500], what))
            continue
        if p != exp:
            res.bad('items', 'TOCTREE has %r, expected %r (%s)' % (p, exp, what))
        for _, slug, _ in exp:
            if 'id="%s"' % slug not in content:
                res.bad('dead link', 'no id %r in the content (%s)' % (slug, what))
        if res.sample is None and len(exp) > 3:
            res.sample = {'levels': [b[4] for b in doc['b'] if b[0] == 'h'], 'limit': doc['max'], 'toctree': toc}
        if len(res.viol) > 3:
            break
    return res


def shrink(case):
    if len(case['docs']) > 1:
        for x in case['docs']:
            yield dict(case, docs=[x])
        return
    doc = case['docs'][0]
    for k in range(len(doc['b'])):
        if len(doc['b']) > 1:
            yield dict(case, docs=[dict(doc, b=doc['b'][:k] + doc['b'][k + 1:])])


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
