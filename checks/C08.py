"""C08: malformed sources and templates are refused, precisely, and leave no output."""
import os
import random
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib  # noqa: E402
import tmpl  # noqa: E402

PID = 'C08'
COUNT = {'quick': 10000, 'thorough': 120000}
RULE = ('well-formed templates and sources with one syntax fault planted at a random place (28 kinds of template faults, '
        '14 kinds of source faults), run in entry, listing, listing-entry and -p mode, to stdout, to a new file in a new '
        'directory and over an existing file; distinct = different (fault kind, faulty text)')
MIN_DISTINCT = 300
ASSUMPTIONS = ['the position of a wrong TOCTREE_MAXDEPTH is not checked (the tests pin the end of the file)']
FORBIDDEN = ['FILENAME', 'CONTENT', 'DATE_FORMATTED', 'DATE_FIRST_FORMATTED', 'DATE_LAST_FORMATTED', 'PAGE_FIRST',
             'PAGE_PREVIOUS', 'PAGE_CURRENT', 'PAGE_NEXT', 'PAGE_LAST', 'BLOGC_VERSION']


def pieces(nodes, r):
    """[(source text, kind, word)] of a tree; kind is text, var or stmt"""
    src, toks = tmpl.write(nodes, r, .2)
    out = []
    pos = 0
    for t in toks:
        if t[0] == 'text':
            n = len(t[1])
        else:
            n = src.index('}}' if t[0] == 'var' else '%}', pos) + 2 - pos
            # a string operand may hold a closing mark
            if t[0] == 'stmt' and isinstance(t[1], list):
                k = src.index(t[1][3], pos) + len(t[1][3])
                n = src.index('%}', k) + 2 - pos
        w = None
        if t[0] == 'stmt':
            w = t[1][0] if isinstance(t[1], list) else t[1].split(' ')[0]
        out.append((src[pos:pos + n], t[0], w))
        pos += n
    assert pos == len(src)
    return out


BAD_NAMES = ['a', 'Foo', 'FOo', 'FOO-BAR', 'FOO.BAR', '_FOO', '1A', 'FOO$', 'FÖO', '-', 'A:B', "A'", 'A,', '"A"']
BAD_OPS = ['=', '!', '===', '=>', '=<', '<>', '!==', 'eq', '&&', '<<', '~=', '>>=']
BAD_STMTS = ['iff', 'elsif', 'elif', 'end', 'for', 'Block', 'IF', 'endfor', 'blocks', 'endblocks', 'x', 'elseif', 'endifs',
             'ifdefs', 'in', 'foreac', 'foreachs', 'ifde', 'bloc', 'endi']
BAD_BLOCKS = ['entries', 'Entry', 'listing_', 'listing_onc', 'listing_ones', 'list', 'entry_', 'listing-once', 'e', '_entry',
              'listing_entries', 'listing2', 'ENTRY']


WORDS = ['if', 'ifdef', 'ifndef', 'else', 'endif', 'foreach', 'endforeach', 'block', 'endblock']
BLOCKS = ['entry', 'listing', 'listing_once', 'listing_empty', 'listing_entry']


def near(r, word, words):
    """A word that differs in one letter from one the language has."""
    while True:
        k = r.randrange(len(word))
        w = r.choice([word[:k] + word[k + 1:], word[:k] + r.choice('aeixyz_') + word[k + 1:], word + r.choice('sye_x2'), word[:-1] + r.choice('aeixyz_d')])
        if w and w not in words:
            return w


WHOLE = ['{{ %s }}x', '{{%s}}x', '{%% ifdef %s %%}x{%% endif %%}', '{%% ifndef %s %%}x{%% endif %%}', '{%% foreach %s %%}x{%% endforeach %%}',
         '{%% if %s == "x" %%}x{%% endif %%}', '{%% if A == %s %%}x{%% endif %%}']


def dictionary():
    """(kind, template, range of the fault) for what is nearly a word or a name of the language."""
    out = []

    def add(kind, word, whole):
        # only %s is at fault in whole
        a, b = whole.replace('%%', '%').split('%s')
        k = a.rfind('{')
        z = b.index('}') + 1 if b[:2] != '}}' else 2
        t = a + word + b
        out.append(('template', kind, t, [len(a[:k].encode()), len((a + word + b[:z]).encode())]))
    for words, whole in ((WORDS[:1], '{%% %s A == "x" %%}x{%% endif %%}'), (WORDS[1:3], '{%%- %s A -%%}x{%% endif %%}'),
                         (WORDS[3:4], '{%% ifdef A %%}x{%% %s %%}x{%% endif %%}'), (WORDS[4:5], '{%% ifdef A %%}x{%%- %s %%}'),
                         (WORDS[5:6], '{%% %s A %%}x{%% endforeach %%}'), (WORDS[6:7], '{%% foreach A %%}x{%% %s %%}'),
                         (WORDS[7:8], '{%% %s entry %%}x{%% endblock %%}'), (WORDS[8:9], '{%% block entry %%}x{%%- %s -%%}'),
                         (BLOCKS, '{%% block %s %%}x{%% endblock %%}')):
        for w in words:
            for k in range(len(w)):
                for x in ('_', w[k].upper(), chr(ord(w[k]) - 1), chr(ord(w[k]) + 1), ''):
                    n = w[:k] + x + w[k + 1:]
                    if n and n not in (BLOCKS if words is BLOCKS else WORDS):
                        add('near word', n, whole)
            for x in 's_x2A':
                add('near word', w + x, whole)
    for c in '@[`/:{^-,\x7f\x80é':
        for n in (c, c + 'A', 'A' + c, 'A' + c + 'A', 'A0' + c, 'A_' + c, 'A_1' + c):
            for fmt in WHOLE:
                if c not in '{-' and (c != '-' or '%%' not in fmt):
                    add('near name', n, fmt)
            if c not in ':':
                t = n + ': x\n'
                out.append(('source', 'near name', t + '-----\nx\n', [0, len(t.encode())]))
                out.append(('source', 'near name', 'A: B\n' + t + '-----\nx\n', [5, 5 + len(t.encode())]))
    for n in '0123456789_':
        for fmt in WHOLE:
            add('near name', n + 'A', fmt)
        t = n + 'A: x\n'
        out.append(('source', 'near name', t + '-----\nx\n', [0, len(t.encode())]))
    return out


def mutate_template(r, toks):
    """(kind, new pieces, index of the faulty piece or None) or None if not applicable"""
    kind = r.choice(['drop close', 'extra close', 'extra else', 'two elses', 'unknown', 'bad block', 'bad var', 'bad cond var',
                     'bad foreach var', 'bad op', 'cut', 'open string', 'nested block', 'nested foreach', 'crossing',
                     'missing operand', 'no space', 'double dash', 'junk end', 'half close', 'empty var', 'empty stmt',
                     'two vars', 'bad operand', 'drop open', 'junk var', 'close twice', 'else across', 'endif across',
                     'block only', 'var single close'])
    n = len(toks)
    stm = [i for i, t in enumerate(toks) if t[1] == 'stmt']
    out = list(toks)
    s = ' '

    def ins(text, at=None):
        k = r.randint(0, n) if at is None else at
        # not after a lone opening bracket
        out.insert(k, (text, 'x', None))
        return kind, out, k
    if kind == 'drop close':
        c = [i for i in stm if toks[i][2].startswith('end')]
        if not c:
            return None
        del out[r.choice(c)]
        return kind, out, None
    if kind == 'drop open':
        c = [i for i in stm if toks[i][2] in ('if', 'ifdef', 'ifndef', 'foreach', 'block')]
        if not c:
            return None
        del out[r.choice(c)]
        return kind, out, None
    if kind == 'extra close':
        # at depth zero nothing can be closed
        d, zero = 0, [0]
        for i, t in enumerate(toks):
            if t[1] == 'stmt':
                d += 1 if t[2] in ('if', 'ifdef', 'ifndef', 'foreach', 'block') else -1 if t[2].startswith('end') else 0
            if d == 0:
                zero.append(i + 1)
        return ins('{%% %s %%}' % r.choice(['endif', 'endforeach', 'endblock', 'else']), r.choice(zero))
    if kind == 'extra else':
        # inside a block or foreach, outside of the ifs in there
        st, c = [], []
        for i, t in enumerate(toks):
            if t[1] == 'stmt':
                if t[2].startswith('end'):
                    st.pop()
                elif t[2] != 'else':
                    st.append(t[2])
            if st and st[-1] in ('foreach', 'block'):
                c.append(i + 1)
        if not c:
            return None
        return ins('{% else %}', r.choice(c))
    if kind == 'two elses':
        st, c = [], []
        for i, t in enumerate(toks):
            if t[1] == 'stmt':
                if t[2].startswith('end'):
                    st.pop()
                elif t[2] == 'else':
                    st[-1] = 'else'
                else:
                    st.append(t[2])
            if st and st[-1] == 'else':
                c.append(i + 1)
        if not c:
            return None
        return ins('{%- else -%}', r.choice(c))
    if kind == 'unknown':
        return ins('{%% %s %%}' % (r.choice(BAD_STMTS) if r.random() < .4 else near(r, r.choice(WORDS), WORDS)))
    if kind == 'bad block':
        c = [i for i in stm if toks[i][2] == 'block']
        if not c:
            return None
        k = r.choice(c)
        out[k] = ('{%% block %s %%}' % (r.choice(BAD_BLOCKS) if r.random() < .4 else near(r, r.choice(BLOCKS), BLOCKS)), 'x', None)
        return kind, out, k
    if kind == 'bad var':
        return ins('{{%s%s%s}}' % (r.choice(['', ' ', '\n ']), r.choice(BAD_NAMES), r.choice(['', ' '])))
    if kind == 'bad cond var':
        return ins('{%% %s %s %%}x{%% endif %%}' % (r.choice(['ifdef', 'ifndef']), r.choice(BAD_NAMES)))
    if kind == 'bad foreach var':
        return ins('{%% foreach %s %%}x{%% endforeach %%}' % r.choice(BAD_NAMES))
    if kind == 'bad op':
        return ins('{%% if A %s %s %%}x{%% endif %%}' % (r.choice(BAD_OPS), r.choice(['"x"', 'B'])))
    if kind == 'bad operand':
        return ins('{%% if A %s %s %%}x{%% endif %%}' % (r.choice(tmpl.OPS), r.choice(['x', "'x'", '1', '-', 'é', '%'])))
    if kind in ('cut', 'open string'):
        c = [i for i in range(n) if toks[i][1] != 'text']
        if kind == 'open string':
            t = '{%% if A == "%s' % r.choice(['', 'x', ' %}x{% endif %}', 'a\nb'])
            return kind, out[:r.randint(0, n)] + [(t, 'x', None)], None
        if not c:
            return None
        k = r.choice(c)
        t = toks[k][0]
        return kind, out[:k] + [(t[:r.randint(2, len(t) - 1)], 'x', None)], None
    if kind == 'nested block':
        # any block inside of a block
        st, c = 0, []
        for i, t in enumerate(toks):
            if t[1] == 'stmt' and t[2] in ('block', 'endblock'):
                st += 1 if t[2] == 'block' else -1
            if st:
                c.append(i + 1)
        if not c:
            return None
        k = r.choice(c)
        out[k:k] = [('{% block listing %}', 'x', None), ('x{% endblock %}', 'x', None)]
        return kind, out, k
    if kind == 'nested foreach':
        st, c = 0, []
        for i, t in enumerate(toks):
            if t[1] == 'stmt' and t[2] in ('foreach', 'endforeach'):
                st += 1 if t[2] == 'foreach' else -1
            if st:
                c.append(i + 1)
        if not c:
            return None
        k = r.choice(c)
        out[k:k] = [('{% foreach A %}', 'x', None), ('x{% endforeach %}', 'x', None)]
        return kind, out, k
    if kind == 'crossing':
        c = [i for i in stm if toks[i][2].startswith('end')]
        p = [(a, b) for a, b in zip(c, c[1:]) if toks[a][2] != toks[b][2]
             and not any(toks[k][1] == 'stmt' for k in range(a + 1, b))]
        if not p:
            return None
        a, b = r.choice(p)
        out[a], out[b] = out[b], out[a]
        return kind, out, None
    if kind in ('else across', 'endif across'):
        # {% if %} {% block/foreach %} {% else/endif %} {% endblock/endforeach %} {% endif %}
        w = r.choice([('block entry', 'endblock'), ('foreach A', 'endforeach'), ('block listing_once', 'endblock')])
        d = 0
        zero = [0]
        for i, t in enumerate(toks):
            if t[1] == 'stmt':
                d += 1 if t[2] in ('if', 'ifdef', 'ifndef', 'foreach', 'block') else -1 if t[2].startswith('end') else 0
            if d == 0:
                zero.append(i + 1)
        k = r.choice(zero)
        if kind == 'else across':
            out[k:k] = [('{% ifdef A %}', 'x', None), ('{%% %s %%}' % w[0], 'x', None), ('{% else %}', 'x', None),
                        ('{%% %s %%}{%% endif %%}' % w[1], 'x', None)]
            return kind, out, k + 2
        out[k:k] = [('{% ifdef A %}', 'x', None), ('{%% %s %%}' % w[0], 'x', None), ('{% endif %}', 'x', None),
                    ('{%% %s %%}' % w[1], 'x', None)]
        return kind, out, k + 2
    if kind == 'missing operand':
        return ins(r.choice(['{% if A == %}', '{% if A %}', '{% if %}', '{% ifdef %}', '{% ifndef %}', '{% foreach %}',
                             '{% block %}', '{% if "a" == A %}', '{% if A "x" %}']) + 'zz{% endif %}')
    if kind == 'no space':
        return ins(r.choice(['{%ifdefA %}', '{%endif%}', '{% endif%}', '{% ifdef A%}', '{% blocklisting %}', '{% foreachA %}',
                             '{% if A=="x" %}', '{% if A =="x" %}', '{% endif-%}', '{% foreach A%}', '{% block entry%}']))
    if kind == 'double dash':
        return ins(r.choice(['{%-- ifdef A %}', '{%- - ifdef A %}', '{% ifdef A --%}', '{% ifdef A - -%}']) + 'zz{% endif %}')
    if kind == 'junk end':
        return ins(r.choice(['{% ifdef A B %}', '{% ifdef A } %}', '{% ifdef A x%}', '{% if A == "x" y %}', '{% if A == B C %}',
                             '{% if A == "x"" %}', '{% if A < B x %}', '{% ifdef A -x%}']) + 'zz{% endif %}')
    if kind == 'half close':
        return ins(r.choice(['{% ifdef A % }', '{% ifdef A %x', '{% ifdef A }}', '{% ifdef A -% }', '{% if A == "x" %%}']) + 'zz{% endif %}')
    if kind == 'empty var':
        return ins(r.choice(['{{ }}', '{{}}', '{{\n}}']))
    if kind == 'empty stmt':
        return ins(r.choice(['{% %}', '{%%}', '{%- -%}', '{%-%}']))
    if kind == 'two vars':
        return ins(r.choice(['{{ A B }}', '{{ A, B }}', '{{ A|B }}', '{{ A + B }}']))
    if kind == 'junk var':
        return ins(r.choice(['{{ A -}}', '{{- A }}', '{{ A %}', '{{ A ]}', '{{{ A }}']))
    if kind == 'var single close':
        return ins(r.choice(['{{ A }x', '{{ A } }', '{{A}x', '{{ A }%']))
    if kind == 'close twice':
        c = [i for i in stm if toks[i][2] in ('endblock', 'endforeach')]
        if not c:
            return None
        k = r.choice(c)
        out.insert(k + 1, ('{%% %s %%}' % toks[k][2], 'x', None))
        return kind, out, k + 1
    if kind == 'block only':
        return kind, [('{%% block %s %%}' % r.choice(['entry', 'listing', 'listing_once']), 'x', None), ('text', 'x', None)], None
    return None


def mutate_source(r):
    """(kind, source, (lo, hi) byte range of the fault or None)"""
    keys = ['TITLE: a title', 'TAGS: x y', 'DATE_: 1', 'X1:y', 'K: é ü', 'LONG:   some words here  ']
    head = r.sample(keys, r.randint(0, len(keys)))
    content = r.choice(['# Title\n\nsome text\n', 'x', '', 'a\n\nb\n'])
    kind = r.choice(['forbidden', 'lower', 'bad char', 'no colon', 'bad separator', 'empty', 'eof in key', 'eof after colon',
                     'eof in value', 'maxdepth', 'digit', 'space in key', 'junk line', 'missing file', 'directory'])
    eol = r.choice(['\n', '\n', '\r\n'])

    def build(bad, sep='-----', body=content, at=None):
        k = r.randint(0, len(head)) if at is None else at
        ls = head[:k] + [bad] + head[k:]
        lo = len(eol.join(head[:k]).encode()) + (len(eol) if k else 0)
        return kind, eol.join(ls) + eol + (sep + eol + body if sep else ''), (lo, lo + len(bad.encode()) + len(eol) - 1)
    if kind == 'forbidden':
        return build(r.choice(FORBIDDEN) + r.choice([': x', ':', ':y']))
    if kind == 'lower':
        return build(r.choice(['title: x', 'tITLE: x', 'x', 'a: b', 'é: x']))
    if kind == 'bad char':
        return build(r.choice(['TITLe: x', 'TI-TLE: x', 'TI.TLE: x', 'T%: x', 'TÉ: x', 'A=b: c', 'A"B: x']))
    if kind == 'digit':
        return build(r.choice(['1A: x', '_A: x', '9: x', ': x', '#A: x', '"A": x', '.A: 1', '=: 1', '{{ A }}']))
    if kind == 'space in key':
        return build(r.choice(['TITLE : x', 'A B: x', 'A\t: x', 'KEY = value']))
    if kind == 'no colon':
        return build(r.choice(['TITLE', 'A', 'FOO_BAR', 'A1']))
    if kind == 'junk line':
        return build(r.choice(['some text', '* list', '# Header', '> quote', '/* c */', '%%%']))
    if kind == 'bad separator':
        s = r.choice(['-----x', '---- ', '- - -', '--=--', '-\t', '-----é', '-: x'])
        return build(s, at=len(head))
    if kind == 'empty':
        return kind, r.choice(['', '\n', ' \t\n\r\n', '\n\n\n', '    ']), None
    if kind.startswith('eof'):
        bad = {'eof in key': r.choice(['TITLE', 'A', 'K_1']), 'eof after colon': r.choice(['TITLE:', 'A:']),
               'eof in value': r.choice(['TITLE: x', 'A:y z', 'A: ', 'T: é'])}[kind]
        k, s, (lo, hi) = build(bad, sep=None, at=len(head))
        return k, s[:-len(eol)], (lo, lo + len(bad.encode()))
    if kind == 'maxdepth':
        k, s, _ = build('TOCTREE_MAXDEPTH: ' + r.choice(['x', '1x', '2 3', '-', '1.5', '0x2', 'é', '--1']), body='# Title\n\n## Sub\n\ntext\n')
        return k, s, None
    return kind, None, None


DICT = dictionary()


def gen(rng, i, tier):
    r = rng
    if i < len(DICT):
        what, kind, text, rg = DICT[i]
        return {'what': what, 'kind': kind, 'text': text, 'range': rg, 'mode': r.choice(['entry', 'listing']), 'which': 0, 'n': 1,
                'out': r.choice(['stdout', 'new'])}
    if r.random() < .6:
        for _ in range(200):
            nodes = tmpl.normalise([n for _ in range(r.choice([0, 1, 2, 4])) for n in tmpl.body(r, r.choice([1, 2, 3]), (False, False))])
            toks = pieces(nodes, r)
            m = mutate_template(r, toks)
            if m is None:
                continue
            kind, out, k = m
            # a text that ends with an opening bracket would change what follows it
            lo = len(''.join(t[0] for t in out[:k]).encode()) if k is not None else None
            hi = lo + len(out[k][0].encode()) if k is not None else None
            t = ''.join(t[0] for t in out)
            return {'what': 'template', 'kind': kind, 'text': t, 'range': None if lo is None else [lo, hi],
                    'mode': r.choice(['entry', 'listing', 'empty listing']), 'out': r.choice(['stdout', 'new', 'deep', 'over', 'dash'])}
    kind, s, rg = mutate_source(r)
    return {'what': 'source', 'kind': kind, 'text': s, 'range': list(rg) if rg else None,
            'mode': r.choice(['entry', 'listing', 'listing entry', 'print', 'print listing']), 'which': r.randint(0, 3),
            'n': r.randint(1, 4), 'out': r.choice(['stdout', 'new', 'deep', 'over', 'dash'])}


def linecol(data, pos):
    """1-based line and column (bytes) of a byte offset."""
    line, col, i = 1, 1, 0
    while i < pos:
        c = data[i:i + 1]
        if data[i:i + 2] in (b'\r\n', b'\n\r'):
            line, col, i = line + 1, 1, i + 2
            continue
        if c in (b'\n', b'\r'):
            line, col = line + 1, 1
        else:
            col += 1
        i += 1
    return line, col


def mixed(data):
    """line numbers are ambiguous in these"""
    t = data.replace(b'\r\n', b'\n')
    return b'\r' in t


NEAR = re.compile(rb'Error occurred near line (\d+), position (\d+): ')


def run_case(ctx, case):
    res = vlib.Res()
    d = ctx.fresh()
    good_t = '{% block entry %}{{ CONTENT }}{% endblock %}{% block listing %}{{ CONTENT }}{% endblock %}{% block listing_entry %}{{ CONTENT }}{% endblock %}x'
    good_s = 'TITLE: fine\n----\n# Header\n\nfine content\n'

    def put(name, text):
        with open(d + '/' + name, 'wb') as fp:
            fp.write(text.encode() if isinstance(text, str) else text)
    cmd = [ctx.asan('blogc')]
    faulty = case['text'].encode() if case['text'] is not None else None
    if case['what'] == 'template':
        put('t', faulty)
        put('s.txt', good_s)
        cmd += ['-t', 't'] + {'entry': ['s.txt'], 'listing': ['-l', 's.txt'], 'empty listing': ['-l']}[case['mode']]
    else:
        put('t', good_t)
        put('s.txt', good_s)
        bad = 'bad.txt'
        if faulty is not None:
            put(bad, faulty)
        elif case['kind'] == 'directory':
            os.mkdir(d + '/' + bad)
        m = case['mode']
        if m in ('entry', 'print'):
            cmd += [bad]
        elif m in ('listing', 'print listing'):
            l = ['s.txt'] * case['n']
            l[case['which'] % case['n']] = bad
            cmd += ['-l'] + l
        else:
            cmd += ['-l', '-e', 's.txt'] * (case['which'] % 2) + ['-l', '-e', bad, 's.txt']
        cmd += ['-p', 'TITLE'] if m.startswith('print') else ['-t', 't']
    out = None
    if case['out'] == 'dash':
        cmd += ['-o', '-']
    elif case['out'] != 'stdout':
        out = {'new': 'out.html', 'deep': 'x/y/out.html', 'over': 'old.html'}[case['out']]
        if case['out'] == 'over':
            put(out, 'previous content\n')
            os.utime(d + '/' + out, (1000000000, 1000000000))
        cmd += ['-o', out]
    before = sorted(os.listdir(d))
    r = vlib.run(cmd, cwd=d)
    res.n += 1
    what = '%s fault %r in %s mode: %r' % (case['what'], case['kind'], case['mode'], (case['text'] or '')[:1500])
    if res.crash(r, what):
        return res
    res.feats['%s: %s' % (case['what'], case['kind'])] += 1
    res.sig(case['what'], case['kind'], case['text'])
    if r.rc == 0:
        res.bad('accepted', 'exit status 0 for a ' + what)
        return res
    if not r.err.strip():
        res.bad('silent', 'no message for a ' + what)
    if r.out:
        res.bad('output on stdout', '%r was printed for a %s' % (r.out[:300], what))
    if sorted(os.listdir(d)) != before:
        res.bad('output created', '%r was created for a %s' % (sorted(set(os.listdir(d)) - set(before)), what))
    if case['out'] == 'over':
        with open(d + '/' + out, 'rb') as fp:
            if fp.read() != b'previous content\n' or os.stat(d + '/' + out).st_mtime != 1000000000:
                res.bad('output changed', 'the existing output was changed for a ' + what)
    m = NEAR.search(r.err)
    if m and faulty is not None:
        line, pos = int(m.group(1)), int(m.group(2))
        if mixed(faulty):
            res.feats['position: mixed line endings'] += 1
            return res
        lines = re.split(rb'\r\n|\n', faulty)
        if line < 1 or line > len(lines) or pos < 1 or pos > len(lines[line - 1]) + 1:
            res.bad('position outside', 'line %d, position %d is outside of the file, for a %s' % (line, pos, what))
            return res
        quoted = r.err[m.end():]
        if not quoted.startswith(lines[line - 1] + b'\n') and line < len(lines):
            res.bad('quoted line', 'line %d is %r but the message quotes %r, for a %s' % (line, lines[line - 1], quoted[:200], what))
        if case['range']:
            lo, hi = (linecol(faulty, x) for x in case['range'])
            res.feats['position checked'] += 1
            if not lo <= (line, pos) <= hi:
                res.bad('position', 'line %d, position %d reported, but the fault is between %r and %r, for a %s' % (
                    line, pos, lo, hi, what))
            elif case['what'] == 'template' and len(faulty) < 400:
                res.sample = {'template': case['text'], 'fault': case['kind'], 'message': r.err.decode('utf-8', 'replace')[:400]}
    return res


def shrink(case):
    t = case['text'] or ''
    if case['what'] == 'template' and case['range'] is None and case['kind'] not in ('cut',):
        return
    # the fault must stay: shorten only the text around it
    if case['range'] and case['what'] == 'template':
        b = t.encode()
        lo, hi = case['range']
        for a, z in ((0, lo), (hi, len(b))):
            if z > a and a == hi:
                try:
                    yield dict(case, text=b[:hi].decode())
                except UnicodeDecodeError:
                    pass


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
