"""C09: listings contain exactly the selected posts, in order, with right page numbers."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib  # noqa: E402
import tmpl  # noqa: E402

PID = 'C09'
COUNT = {'quick': 4500, 'thorough': 40000}
RULE = ('random sets of 0-40 sources (some of 300) with tags that are prefixes of each other and dates of all forms, many '
        'equal; random FILTER_TAG, FILTER_SORT, FILTER_REVERSE, FILTER_PER_PAGE; every page from 0 to two after the last '
        'is rendered; distinct = different (sources, filters) with a listing of at least one post')
MIN_DISTINCT = 200
ASSUMPTIONS = ['posts with equal dates keep the order of the command line']
PAGE = ['CURRENT_PAGE', 'FIRST_PAGE', 'LAST_PAGE', 'PREVIOUS_PAGE', 'NEXT_PAGE', 'DATE_FIRST', 'DATE_LAST',
        'FILENAME_FIRST', 'FILENAME_LAST', 'DATE_FIRST_FORMATTED', 'DATE_LAST_FORMATTED', 'NEXT_PAGE_1']
TAGS = ['a', 'ab', 'abc', 'b', 'tag', 'tags', 'ta', 'A', 'é', 'foo-bar', 'foo', '1', '10', 'tag_', 'x.y', 'c++']
T = ('{% block listing_once %}\x01' + '\x02'.join('%s={%% ifdef %s %%}{{ %s }}{%% else %%}\x04{%% endif %%}' % (p, p, p) for p in PAGE)
     + '{% endblock %}{% block listing %}\x03{{ ID }}|{{ FILENAME }}|{{ DATE }}|{{ TAGS }}|{{ DATE_FIRST }}|{{ CURRENT_PAGE }}{% endblock %}'
     '{% block listing_empty %}\x03EMPTY{% endblock %}')


def date(r, near):
    if near and r.random() < .6:
        d = r.choice(near)
    else:
        d = '%04d-%02d-%02d %02d:%02d:%02d' % (
            r.choice([r.randint(1970, 2037), r.randint(1902, 2100), r.randint(1900, 9999), 2019, 2020]), r.randint(1, 12),
            r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))
        near.append(d)
    return d[:r.choice([10, 13, 16, 19, 19, 19])]


def gen(rng, i, tier):
    r = rng
    n = r.choice([0, 1, 2, 3, 4, 5, 7, 10, 11, 20, 40]) if r.random() < .985 else 300
    dated = r.random() < .7
    near = []
    srcs = []
    for k in range(n):
        s = {}
        if dated and not (r.random() < .004):
            s['DATE'] = date(r, near)
        elif not dated and r.random() < .002:
            s['DATE'] = date(r, near)
        if r.random() < .8:
            s['TAGS'] = (' ' * r.choice([1, 1, 1, 2])).join(r.sample(TAGS, r.choice([0, 1, 1, 2, 3, 5])))
        srcs.append(s)
    f = {}
    if r.random() < .55:
        f['FILTER_TAG'] = r.choice(TAGS + ['nope', 'tag tags', ''])
    if r.random() < (.65 if dated else .06):
        f['FILTER_SORT'] = r.choice(['1', 'y', 'Y', 'yes', 'YES', 'true', 'True', 'on', 'ON', '0', 'no', '', 'false', 'off', '2', 'n'])
    if r.random() < .5:
        f['FILTER_REVERSE'] = r.choice(['1', 'y', 'yes', 'true', 'on', 'oN', '0', 'no', '', 'false', 'off', 'x'])
    if r.random() < .7:
        f['FILTER_PER_PAGE'] = r.choice(['1', '2', '3', '4', '5', '7', '10', '11', '100', '0', '-1', '-3', '9999999999', str(max(1, n)),
                                         str(n + 1), str(max(1, n - 1))])
    if r.random() < .15:
        f['DATE_FORMAT'] = '%d/%m/%Y %H:%M:%S'
    if r.random() < .1:
        # names the listing sets must not be left over from a global
        f['SOME_PAGE'] = 'x'
    return {'srcs': srcs, 'f': f, 'paged': r.random() < .75, 'odd': r.choice(['x', '2x', '', ' 1', '-5', '0', '+1', '99999999999999999999'])
            if r.random() < .1 else None, 'dir': r.choice(['', 'posts/', 'a.b/'])}


def true(v):
    return v is not None and (v == '1' or v.lower() in ('y', 'yes', 'true', 'on'))


def number(v):
    """strtol"""
    s = v.lstrip(' \t\n\v\f\r')
    k = 1 if s[:1] in ('+', '-') else 0
    j = k
    while j < len(s) and s[j].isascii() and s[j].isdigit():
        j += 1
    return max(-2**63, min(2**63 - 1, int(s[:j]))) if j > k else 0


def model(srcs, f, page):
    """None if it must be refused, else (items, variables)"""
    sort = true(f.get('FILTER_SORT'))
    rev = true(f.get('FILTER_REVERSE'))
    n = sum('DATE' in s for s in srcs)
    if (sort and n < len(srcs)) or 0 < n < len(srcs):
        return None
    l = list(srcs)
    if sort:
        l.sort(key=lambda s: tmpl.gmt(s['DATE'])[:6], reverse=not rev)   # stable either way
    elif rev:
        l.reverse()
    if 'FILTER_TAG' in f:
        l = [s for s in l if f['FILTER_TAG'] in [t for t in s.get('TAGS', '').split(' ') if t]]
    v = {}
    if page is not None:
        p = max(1, number(page))
        pp = max(0, number(f.get('FILTER_PER_PAGE', '10')))
        total = len(l)
        last = (total + pp - 1) // pp if pp else 0
        l = l[(p - 1) * pp:p * pp] if pp else []
        v['CURRENT_PAGE'] = str(p)
        if p > 1:
            v['PREVIOUS_PAGE'] = str(p - 1)
        if p < last:
            v['NEXT_PAGE'] = str(p + 1)
        if l:
            v['FIRST_PAGE'] = '1'
        if last:
            v['LAST_PAGE'] = str(last)
    if l:
        v['FILENAME_FIRST'], v['FILENAME_LAST'] = l[0]['FILENAME'], l[-1]['FILENAME']
        if 'DATE' in l[0]:
            v['DATE_FIRST'], v['DATE_LAST'] = l[0]['DATE'], l[-1]['DATE']
    return l, v


def run_case(ctx, case):
    res = vlib.Res()
    d = ctx.fresh()
    f = case['f']
    with open(d + '/t', 'w') as fp:
        fp.write(T)
    if case['dir']:
        os.mkdir(d + '/' + case['dir'])
    cmd = [ctx.asan('blogc'), '-l', '-t', 't']
    for k, v in f.items():
        cmd += ['-D', k + '=' + v]
    srcs = []
    for n, s in enumerate(case['srcs']):
        name = 'p%d' % n
        with open(d + '/' + case['dir'] + name + '.txt', 'w') as fp:
            fp.write('ID: %d\n' % n + ''.join('%s: %s\n' % kv for kv in s.items()) + '----\nx\n')
        cmd.append(case['dir'] + name + '.txt')
        srcs.append(dict(s, ID=str(n), FILENAME=name))
    pages = [None]
    if case['paged']:
        m = model(srcs, f, '1')
        last = int(m[1].get('LAST_PAGE', 0)) if m else 1
        pages = [str(p) for p in range(0, last + 3)]
        if len(pages) > 9:
            pages = pages[:5] + pages[len(pages) // 2:len(pages) // 2 + 1] + pages[-4:]
        if case['odd'] is not None:
            pages.append(case['odd'])
    for page in pages:
        r = vlib.run(cmd + (['-D', 'FILTER_PAGE=' + page] if page is not None else []), cwd=d)
        res.n += 1
        what = 'filters %r page %r sources %r' % (f, page, srcs[:60])
        if res.crash(r, what):
            return res
        m = model(srcs, f, page)
        if m is None:
            if r.rc == 0 or not r.err.strip():
                res.bad('not refused', 'sources with and without a date were accepted: ' + what)
            res.feats['refused mixed dates'] += 1
            continue
        l, v = m
        if r.rc != 0:
            res.bad('failed', '%s: %s' % (what, r.err[-400:].decode('utf-8', 'replace')))
            return res
        out = r.out.decode('utf-8', 'replace')
        exp = dict(v)
        for x in ('DATE_FIRST', 'DATE_LAST'):
            if x in v:
                exp[x + '_FORMATTED'] = tmpl.strftime(f['DATE_FORMAT'], tmpl.gmt(v[x])) if 'DATE_FORMAT' in f else v[x]
        if 'NEXT_PAGE' in v:
            exp['NEXT_PAGE_1'] = v['NEXT_PAGE'][:1]
        head, *items = out.split('\x03')
        got = dict(x.split('=', 1) for x in head.lstrip('\x01').split('\x02'))
        want = ['|'.join([s['ID'], s['FILENAME'], s.get('DATE', ''), s.get('TAGS', ''), v.get('DATE_FIRST', ''),
                          v.get('CURRENT_PAGE', '')]) for s in l] or (['EMPTY'])
        if items != want:
            res.bad('items', '%s\nexpected %r\ngot      %r' % (what, want, items))
        for p in PAGE:
            if got.get(p) != exp.get(p, '\x04'):
                res.bad('page variable', '%s\n%s: expected %r, got %r' % (what, p, exp.get(p), got.get(p)))
        if l:
            res.sig(case['srcs'], f, page)
            res.feats['posts listed'] += len(l)
        res.feats['pages' if page is not None else 'unpaged'] += 1
        res.feats['sort %s reverse %s tag %s' % (true(f.get('FILTER_SORT')), true(f.get('FILTER_REVERSE')), 'FILTER_TAG' in f)] += 1
        if res.viol:
            return res
        if 1 < len(srcs) < 5 and l:
            res.sample = {'sources': srcs, 'filters': f, 'page': page, 'listing': items, 'variables': exp}
    return res


def shrink(case):
    s = case['srcs']
    for k in range(len(s)):
        yield dict(case, srcs=s[:k] + s[k + 1:])
    for k in case['f']:
        yield dict(case, f={x: y for x, y in case['f'].items() if x != k})


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
