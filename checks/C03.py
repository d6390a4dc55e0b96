"""C03: every documented element renders to its documented HTML."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib  # noqa: E402
import gencontent as gc  # noqa: E402

PID = 'C03'
COUNT = {'quick': 4000, 'thorough': 60000}
PER = 40
RULE = ('a document is a random sequence of blogc-source(7) blocks (nested, 4 line endings, with/without final line '
        'ending), generated together with its HTML; distinct = different source text; compared byte for byte with '
        '{{ CONTENT }}')
ASSUMPTIONS = ['constructs the manual leaves open (white-space-only lines, two-character rules, empty items, the same '
               'marker nested in itself) are not generated']
MIN_DISTINCT = 100
M0, M1 = '\x01<<', '>>\x02'


def gen(rng, i, tier):
    docs = []
    for _ in range(PER):
        if rng.random() < .03:
            # a document without any line ending
            g = gc.G(rng)
            b = g.paragraph() if rng.random() < .5 else g.header()
            b['sep'] = '\n\n'
            blocks = [b]
        else:
            blocks = gc.document(rng)
        docs.append({'b': [[b['kind'], b['src'], b['html'], b['sep']] for b in blocks],
                     'eol': rng.choice(gc.EOLS[:3] if rng.random() < .95 else gc.EOLS),
                     'tail': rng.choice(['\n', '\n', '', '\n\n', '\n\n\n'])})
    return docs


def texts(d):
    src = ''.join(b[1] + b[3] for b in d['b'][:-1]) + d['b'][-1][1]
    html = ''.join(b[2] for b in d['b'])
    return gc.finish(src, html, d['eol'], d['tail'])


def first_diff(a, b):
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return n


def run_case(ctx, case):
    res = vlib.Res()
    d = ctx.fresh()
    with open(d + '/t', 'w', newline='') as fp:
        fp.write('{% block listing %}' + M0 + '{{ CONTENT }}' + M1 + '{% endblock %}')
    exp = []
    files = []
    for j, doc in enumerate(case):
        src, html = texts(doc)
        e = doc['eol']
        with open(d + '/%d.txt' % j, 'w', newline='', encoding='utf-8') as fp:
            fp.write('A: b' + e + '---' + e + src)
        files.append('%d.txt' % j)
        exp.append((src, html))
    r = vlib.run([ctx.asan('blogc'), '-l', '-t', 't'] + files, cwd=d)
    if res.crash(r, 'blogc on %d generated documents' % len(case)):
        return res
    if r.rc != 0:
        res.bad('exit status', 'blogc exited %s: %s' % (r.rc, r.err[-500:]))
        return res
    out = r.out.decode('utf-8', 'surrogateescape')
    got = [x.split(M1)[0] for x in out.split(M0)[1:]]
    if len(got) != len(case):
        res.bad('entry count', '%d documents rendered of %d' % (len(got), len(case)))
        return res
    for doc, (src, html), g in zip(case, exp, got):
        res.n += 1
        res.sig(src)
        for b in doc['b']:
            res.feats['block ' + b[0]] += 1
        res.feats['eol %r' % doc['eol']] += 1
        if g != html:
            n = first_diff(g, html)
            res.bad('rendering', 'source %r\n expected %r\n got      %r\n differ at %d: expected ...%r got ...%r' % (
                src[:1500], html[:1500], g[:1500], n, html[max(0, n - 30):n + 60], g[max(0, n - 30):n + 60]))
            if len(res.viol) > 2:
                break
        elif res.sample is None and len(doc['b']) > 2:
            res.sample = {'source': src, 'html': html}
    return res


def shrink(case):
    if len(case) > 1:
        for x in case:
            yield [x]
        return
    doc = case[0]
    for k in range(len(doc['b'])):
        if len(doc['b']) > 1:
            yield [dict(doc, b=doc['b'][:k] + doc['b'][k + 1:])]
    if doc['eol'] != '\n':
        yield [dict(doc, eol='\n')]


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
