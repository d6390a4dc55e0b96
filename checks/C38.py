"""C38: content is read block by block: what surrounds a block does not change it."""
import os
import random
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib  # noqa: E402
import gencontent as gc  # noqa: E402

PID = 'C38'
COUNT = {'quick': 2000, 'thorough': 40000}
PER = 30
RULE = ('lines of markup, correct, broken and half finished, in random order, generated documents with random changes, and random '
        'inline text; each is rendered alone and in other surroundings (other line endings, blank lines after it, after and before other '
        'blocks, in a block quote, before and after the end of the excerpt, as item, header and quote, as code, in a listing), and the '
        'results are compared; distinct = different source text')
MIN_DISTINCT = 5000
ASSUMPTIONS = ['a line with nothing but number signs goes on after a blank line, as the unit tests want it: not used as the last line of a block',
               'the end of the excerpt has no meaning in a block quote, and is left open in front of everything else',
               'the line ending of a source without any is left open']
LINES = ['# a', '## b c', '###### d', '#', '# ', '####### seven', 'a', 'b *c* d', '*e', '**f**', '_', '__', '`x`', '``', '- i', '- j', '-', '+ k', '* l', '* ', '+',
         '1. m', '2. n', '10. o', '100. p', '1.', '1', '> q', '>', '> ', '>> r', '>  s', '> > t', '    code', '\tcode2', '    ', '   z', '---', '--', '***', '* * *',
         '...', '..', '. .', '....', '<p>', '</p>', '<div>\tx', '<', '[a](b)', '[a', '![i](j)', '![i', '[[l]]', '[[l]', '[a] (b)', '](x)', 'x  ', 'x ', 'y \\', '\\', '\\# n',
         'a -- b', '--- x', 'c---', ':', 'é', '"q"', '&amp; <', '  - w', '  continuation', '   c2', '![', '!', '](', '(u)', '**', '`', 'a `', '` b', 'word',
         '*  ', '1.  x', '1.\ty', '-\tz', '>\tq', '> # h', '> - i', '>     c', '- > q', '- # h', '1. - x', '## ', '##h', '=', '~', '| a | b |']
BITS = ['*', '**', '_', '__', '`', '``', '[', ']', '(', ')', '![', '[[', ']]', '](', '\\', ' ', '  ', '-', '--', '---', 'a', 'b1', 'é', '日', '<b>', '&', '"', "'", '.', '#',
        '>', '[t](u)', '![t](u)', '[[u]]', '`c`', '*e*', '**s**', '\\*', '\\\\', '\\ ', '!', '/', '[x] (y)', '{', '%}', '{{ A }}']


def inline(r):
    return ''.join(r.choice(BITS) if r.random() < .8 else r.choice('abc xyz') for _ in range(r.choice([1, 2, 3, 5, 8, 14])))


def soup(r):
    """a text of lines; the first and the last one are not blank"""
    for _ in range(200):
        k = r.random()
        if k < .55:
            d = []
            blank = r.choice([.1, .25, .4])
            for _ in range(r.choice([1, 1, 2, 3, 4, 6, 10, 16])):
                d.append('' if r.random() < blank else r.choice(['  ', '\t', ' ']) if r.random() < .05 else inline(r) if r.random() < .15 else r.choice(LINES))
            s = '\n'.join(d)
        else:
            b = gc.document(r, n=r.choice([1, 2, 3]))
            s = gc.join(b)[0]
            for _ in range(r.choice([0, 1, 1, 2, 5])):
                p = r.randrange(len(s) + 1)
                x = r.random()
                if x < .4:
                    s = s[:p] + s[p + r.choice([1, 1, 2, 8]):]
                elif x < .8:
                    s = s[:p] + r.choice(BITS + ['\n', '\n\n', '> ', '    ']) + s[p:]
                else:
                    q = r.randrange(len(s) + 1)
                    s = s[:p] + s[q:q + 20] + s[p:]
        n = s.split('\n')
        if n[0].strip() and n[-1].strip() and not re.fullmatch('#+', n[-1]) and '\r' not in s:
            return s
    return 'x'


def quotable(s):
    return s[0] not in ' \t' and not re.search(r'(?m)^\.\.+$', s)


def gen(rng, i, tier):
    out = []
    for _ in range(PER):
        k = rng.random()
        if k < .8:
            out.append([soup(rng), soup(rng), rng.randrange(1 << 30)])
        else:
            out.append([None, ('w' if rng.random() < .5 else '') + inline(rng), rng.randrange(1 << 30)])
    return out


def variants(a, b, r):
    """(name, source text, how to say what it has to be, from the texts alone)"""
    v = []
    for n, e in (('CR LF', '\r\n'), ('CR', '\r'), ('LF CR', '\n\r')):
        v.append((n, (a + '\n').replace('\n', e), ('eol', e)))
    if '\n' in a and r.random() < .5:
        e = r.choice(['\r\n', '\r', '\n\r'])
        v.append(('no line ending at the end', a, ('eol', '\n')))
        v.append(('no line ending at the end, %r' % e, a.replace('\n', e), ('eol', e)))
    v.append(('blank lines after', a + '\n' * r.choice([2, 3, 5]), ('same', '')))
    v.append(('blank lines before', '\n' * r.choice([1, 2, 4]) + a + '\n', ('same', '')))
    v.append(('another block after', a + '\n\n' + b + '\n', ('both', '')))
    v.append(('excerpt', a + '\n\n' + '.' * r.choice([2, 3, 3, 9]) + '\n\n' + b + '\n', ('excerpt', '')))
    if quotable(a):
        p = r.choice(['> ', '> ', '>', '>  ', '>\t', '>   \t'])
        v.append(('quoted', '\n'.join(p + x for x in a.split('\n')) + '\n', ('quote', '')))
        if r.random() < .2:
            v.append(('quoted twice', '\n'.join('> > ' + x for x in a.split('\n')) + '\n', ('quote 2', '')))
        e = r.choice(['\r\n', '\r'])
        v.append(('quoted, %r' % e, ''.join(p + x + e for x in a.split('\n')), ('quote', e)))
    return v


M = ['\x01C', '\x01E', '\x01H', '\x01D', '\x01Z']


def run_case(ctx, case):
    res = vlib.Res()
    d = ctx.fresh()
    with open(d + '/t', 'w', newline='') as fp:
        fp.write('{%% block listing %%}%s{{ CONTENT }}%s{{ EXCERPT }}%s{%% ifdef FIRST_HEADER %%}+{{ FIRST_HEADER }}{%% endif %%}%s{%% ifdef DESCRIPTION %%}+{{ DESCRIPTION }}{%% endif %%}%s{%% endblock %%}' % tuple(M))
    files, seen = [], {}

    def add(text):
        if text not in seen:
            seen[text] = len(files)
            with open(d + '/%d.txt' % len(files), 'w', newline='', encoding='utf-8') as fp:
                fp.write('A: b\n---\n' + text)
            files.append('%d.txt' % len(files))
        return seen[text]

    plan = []
    for a, b, seed in case:
        r = random.Random(seed)
        if a is None:
            x = b
            if not x.strip() or x != x.strip() or x.endswith('\\'):
                x = 'w' + x.strip(' \\') + 'w'
            p = {'p': '(w) ' + x, 'li': '- (w) ' + x, 'ol': '7. (w) ' + x, 'h': '### (w) ' + x, 'q': '> (w) ' + x, 'li2': '+ z\n+ (w) ' + x + '\n+ z', 'p2': 'z\n\n(w) ' + x + '\n\nz',
                 'pre': '    ' + x, 'pre2': '\t' + x + '\n\tz'}
            plan.append((None, x, {k: add(t + '\n') for k, t in p.items()}))
        else:
            plan.append((a, b, (add(a + '\n'), add(b + '\n'), [(n, t, add(t), how) for n, t, how in variants(a, b, r)])))
    p = vlib.run([ctx.asan('blogc'), '-l', '-t', 't'] + files, cwd=d)
    if res.crash(p, 'blogc on %d texts' % len(files)):
        return res
    if p.rc != 0:
        return res.bad('exit status', 'blogc exited %s: %s' % (p.rc, p.err[-500:])) or res
    out = p.out.decode('utf-8', 'surrogateescape')
    got = [tuple(x) for x in re.findall('%s(.*?)%s(.*?)%s(.*?)%s(.*?)%s' % tuple(M), out, re.S)]
    if len(got) != len(files):
        return res.bad('entry count', '%d texts rendered of %d' % (len(got), len(files))) or res
    for a, b, ref in plan:
        res.n += 1
        if a is None:
            check_inline(res, b, {k: got[n][0] for k, n in ref.items()})
            continue
        A, B, vs = got[ref[0]], got[ref[1]], ref[2]
        res.sig(a, b)
        for name, text, n, (how, arg) in vs:
            g = got[n]
            if how == 'eol':
                w = tuple(x.replace('\n', arg) for x in A[:2]) + A[2:]
            elif how == 'same':
                w = A
            elif how in ('both', 'excerpt'):
                w = [A[0] + B[0], None, A[2] or B[2], A[3] or B[3]]
                if how == 'excerpt':
                    # whether a separator in front of everything is one is left open
                    w[1] = None if re.match(r'\.\.+(\n|$)', a) else A[1] if marked(a) else A[0]
                w = tuple(w)
            else:
                c = A[0]
                for _ in range(2 if how == 'quote 2' else 1):
                    c = '<blockquote>' + c + '</blockquote>\n'
                w = (c.replace('\n', arg) if arg else c, None, None, None)
            res.feats[name.split(',')[0]] += 1
            for k, x in enumerate(('CONTENT', 'EXCERPT', 'FIRST_HEADER', 'DESCRIPTION')):
                if w[k] is not None and g[k] != w[k]:
                    res.bad(how, '%s (%s)\n source %r\n gives    %r\n expected %r' % (x, name, text[:1500], g[k][:1500], w[k][:1500]))
                    break
            if len(res.viol) > 2:
                return res
        if res.sample is None and len(a) > 30:
            res.sample = {'text': a, 'other': b, 'content': A[0]}
    return res


def marked(a):
    return re.search(r'(?m)^\.\.+$', a) is not None


def check_inline(res, x, g):
    res.sig('inline', x)
    esc = gc.esc(x)
    m = re.fullmatch(r'<p>(.*)</p>\n', g['p'], re.S)
    if not m:
        return res.bad('inline', '%r\n as a paragraph gives %r' % (x, g['p']))
    t = m.group(1)
    want = {'li': '<ul>\n<li>%s</li>\n</ul>\n', 'ol': '<ol>\n<li>%s</li>\n</ol>\n', 'q': '<blockquote><p>%s</p>\n</blockquote>\n',
            'li2': '<ul>\n<li>z</li>\n<li>%s</li>\n<li>z</li>\n</ul>\n', 'p2': '<p>z</p>\n<p>%s</p>\n<p>z</p>\n'}
    for k, w in want.items():
        if g[k] != w.replace('%s', t):
            return res.bad('inline', '%r\n as %s gives %r\n as a paragraph %r' % (x, k, g[k], g['p']))
    h = re.fullmatch(r'<h3(?: id="[^"]*")?>(.*)</h3>\n', g['h'], re.S)
    if not h or h.group(1) != t:
        return res.bad('inline', '%r\n as a header gives %r\n as a paragraph %r' % (x, g['h'], g['p']))
    if g['pre'] != '<pre><code>%s</code></pre>\n' % esc or g['pre2'] != '<pre><code>%s\nz</code></pre>\n' % esc:
        return res.bad('inline', '%r\n as code gives %r, %r' % (x, g['pre'], g['pre2']))
    res.feats['inline text'] += 1


def shrink(case):
    if len(case) > 1:
        for x in case:
            yield [x]
        return
    a, b, seed = case[0]
    for k, t in ((0, a), (1, b)):
        if not t:
            continue
        ls = t.split('\n')
        for j in range(len(ls)):
            n = ls[:j] + ls[j + 1:]
            if n and n[0].strip() and n[-1].strip() and not re.fullmatch('#+', n[-1]):
                x = [a, b, seed]
                x[k] = '\n'.join(n)
                yield [x]


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
