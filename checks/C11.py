"""C11: only valid UTF-8 is accepted, and it passes through intact."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib  # noqa: E402

PID = 'C11'
COUNT = {'quick': 12000, 'thorough': 150000}
RULE = ('byte strings: valid text of every UTF-8 length class and boundary code point, and the same with one ill-formed '
        'sequence (overlong, surrogate, beyond U+10FFFF, stray or missing continuation, cut at the end, 5 and 6 byte forms, '
        'UTF-16 marks) at random places and near multiples of the read size, in source keys and content, templates, -D '
        'values and blogcfiles, with and without byte order mark; acceptance compared with an independent decoder, '
        'accepted text compared with the output, also truncated; distinct = different byte strings')
MIN_DISTINCT = 500
ASSUMPTIONS = ['NUL bytes are left open and not generated']

EDGE = ['\x7f', '\x80', '\u07ff', '\u0800', '\u0fff', '\u1000', '\ucfff', '\ud7ff', '\ue000', '\ufdd0', '\ufffd', '\ufffe', '\uffff',
        '\U00010000', '\U0003ffff', '\U00040000', '\U000fffff', '\U00100000', '\U0010ffff', '\ufeff', '\u2028', '\x85', '\xa0']
SCRIPTS = ['a', 'B', '7', ' ', 'é', 'ß', 'ñ', 'Ж', 'я', 'ع', 'ש', 'ก', 'क्', '中', '文', 'あ', 'ア', '한', '😀', '👩‍👩‍👧', 'e\u0301', '𝔘', '\u200b', 'ﬁ', 'İ', 'ı']
BAD = [b'\x80', b'\xbf', b'\xc0\x80', b'\xc1\xbf', b'\xc2', b'\xc2A', b'\xc3\xc3\xa9', b'\xe0\x80\x80', b'\xe0\x9f\xbf', b'\xe1\x80', b'\xe1\x80A',
       b'\xed\xa0\x80', b'\xed\xbf\xbf', b'\xed\xa0\x80\xed\xb0\x80', b'\xef\xbf', b'\xef\xbb', b'\xf0\x80\x80\x80', b'\xf0\x8f\xbf\xbf', b'\xf0\x9f\x98',
       b'\xf0\x9f', b'\xf4\x90\x80\x80', b'\xf5\x80\x80\x80', b'\xf8\x88\x80\x80\x80', b'\xfc\x84\x80\x80\x80\x80', b'\xfe', b'\xff', b'\xff\xfe', b'\xfe\xff',
       b'\xe9', b'\xa0', b'\xe2\x28\xa1', b'\xf0\x28\x8c\xbc', b'\xf1\x80\x80\xc0', b'\xf4\x8f\xbf', b'\xc3', b'\xef\xbb\xbf\xbf', b'\xee\x80',
       b'\xf3\xa0\x80', b'\xdf', b'\xf7\xbf\xbf\xbf', b'\xe0\xa0', b'\xed\x9f', b'\xf1\x80\x80']
SAFE = [c for c in EDGE + SCRIPTS]


def text(r, n=None):
    n = r.choice([1, 3, 8, 20, 60]) if n is None else n
    return ''.join(r.choice(EDGE) if r.random() < .15 else r.choice(SCRIPTS) for _ in range(n))


def pad_to(s, at):
    """s moved so that it starts at a byte offset"""
    return 'p' * max(0, at) + s


def gen(rng, i, tier):
    r = rng
    where = r.choice(['value', 'content', 'template', 'define', 'blogcfile', 'raw', 'trunc', 'doc', 'code', 'entry'])
    t = text(r).strip(' \t\n\v\f\r\x85\xa0')
    t = t or 'é'
    if r.random() < .1 and where not in ('define', 'trunc'):
        t = 'p' * (r.choice([1024, 4096, 8192]) + r.randint(-40, 4)) + t
    data = t.encode()
    if where not in ('trunc', 'doc') and r.random() < .5:
        b = r.choice(BAD)
        p = r.choice([0, len(data), r.randint(0, len(data))])
        data = data[:p] + b + data[p:]
    elif where not in ('trunc', 'doc') and r.random() < .15 and len(data) > 1:
        p = r.randrange(len(data))
        k = r.random()
        data = data[:p] + (data[p + 1:] if k < .5 else bytes([data[p] ^ (1 << r.randint(0, 7))]) + data[p + 1:])
        data = re.sub(rb'[\0\r\n\v\f]', b'z', data)
    case = {'where': where, 'data': list(data), 'bom': r.random() < .25, 'end': r.random() < .2, 'n': r.randint(1, 70),
            'n2': r.randint(1, 30)}
    if where == 'doc':
        case['doc'] = doc(r)
    if where == 'template' and r.random() < .2:
        # the file starts with something that shares bytes with the byte order mark
        case['data'] = list((r.choice(['\ufec0', '\ufefe', '\uff3f', '\ueeff', '\u4eff', '\u1eff', '\uefff', '\ufebf']) + text(r, 3)).encode())
        case['end'], case['bom'] = True, r.random() < .1
        return case
    if where in ('value', 'content', 'template', 'raw') and r.random() < .3:
        # a character across a boundary of the reads
        case['data'] = list((r.choice(['\ufeff', '\ufeff', '中', '😀', 'é']) + text(r, 3) + 'z').encode()) if r.random() < .7 else \
            list(r.choice(BAD) + b'z')
        case['align'] = [r.choice([1, 1, 2, 4]), r.randint(-3, 0)]
        case['end'] = False
    return case


MARK = ['*', '**', '_', '__', '`', '\\', '\\*', '  \n', '\n', '\n\n', '--', '---', '<', '>', '&', '"', "'", '[', ']', '(', ')', '![', '](', '[[',
        ']]', '# ', '\n\n# ', '\n\n## ', '\n\n> ', '\n\n* ', '\n* ', '\n\n1. ', '\n2. ', '\n\n    ', '\n    ', '\n\n---\n\n', '...', '\n\n..\n\n',
        '\n\n<p>', '\r\n', '\t', '\v', '\f', '/', '#', '+', '\n\n+ ', '\n  ', '\n    ', '{{ X }}']


def doc(r):
    return ''.join(r.choice(MARK) if r.random() < .5 else text(r, r.choice([1, 1, 2, 5])) for _ in range(r.choice([5, 15, 40])))


def decodes(b):
    try:
        b.decode('utf-8', 'strict')
        return True
    except UnicodeDecodeError:
        return False


def run_case(ctx, case):
    res = vlib.Res()
    d = ctx.fresh()
    data = bytes(case['data'])
    if b'\0' in data:
        return res
    w = case['where']
    bom = b'\xef\xbb\xbf' if case['bom'] else b''

    if 'align' in case:
        pre = len(bom) + {'value': 9, 'content': 12, 'raw': 14, 'template': 2}[w]
        data = b'p' * (case['align'][0] * 1024 + case['align'][1] - pre) + data

    def put(name, b):
        with open(d + '/' + name, 'wb') as fp:
            fp.write(b)
    put('t', b'{{ X }}' if w != 'define' else b'\x01{{ X }}\x02')
    blogc = ctx.asan('blogc')
    ok = decodes(data)
    exp = None
    cmd = [blogc, '-t', 't', 's.txt']
    src = b'X: 1\n----\nx\n'
    if w == 'value' or w == 'entry':
        src = bom + b'V: 1\nX: \x01' + data + b'\x02\n----\nx\n'
        put('t', b'{% block entry %}{{ X }}{% endblock %}{% block listing_entry %}{{ X }}{% endblock %}')
        exp = b'\x01' + data + b'\x02'
        if w == 'entry':
            put('e.txt', src)
            src = b'X: 1\n---\nx\n'
            cmd = [blogc, '-t', 't', '-l', '-e', 'e.txt', 's.txt']
    elif w in ('content', 'raw', 'code'):
        pre = {'content': b'q\x01', 'raw': b'<p>\x01', 'code': b'    \x01'}[w]
        src = bom + b'V: 1\n----\n' + pre + data + b'\x02' + (b'' if case['end'] else b'\n')
        put('t', b'{% block entry %}{{ CONTENT }}{% endblock %}')
        exp = b'\x01' + data + b'\x02'
    elif w == 'template':
        t = bom + b'a\x01' + data + b'\x02'
        if case['end']:
            # the text itself comes first
            t = bom + data + b'\x02'
            exp = (data[3:] if not bom and data.startswith(b'\xef\xbb\xbf') else data) + b'\x02'
        else:
            exp = b'a\x01' + data + b'\x02'
        put('t', t)
    elif w == 'define':
        cmd += ['-D', b'X=' + data]
        exp = b'\x01' + data + b'\x02'
    elif w == 'blogcfile':
        put('blogcfile', bom + b'[global]\nAUTHOR_NAME = n\nAUTHOR_EMAIL = e\nSITE_TITLE = ' + data.replace(b'"', b'') +
            b'\nSITE_TAGLINE = t\nBASE_DOMAIN = http://x\n' + (b'' if case['end'] else b'# comment \xc3\xa9\n'))
        cmd = [ctx.asan('blogc-make'), '-f', 'blogcfile', 'atom_dump']
        ok = decodes(data.replace(b'"', b''))
    elif w == 'trunc':
        t = data.decode()
        src = bom + b'X: ' + data + b'\nLIST: ' + '_'.join(t.split(' ')).encode() + b'\n----\nx\n'
        n, n2 = case['n'], case['n2']
        put('t', ('{%% block entry %%}{{ X_%d }}\x01{{ G_%d }}\x01{%% foreach LIST %%}{{ FOREACH_ITEM_%d }}{%% endforeach %%}'
                  '\x01{{ DATE_FORMATTED_%d }}{%% endblock %%}' % (n, n2, n, n2)).encode())
        cmd += ['-D', b'G=' + data, '-D', 'DATE=2020-01-02', '-D', b'DATE_FORMAT=' + t.replace('%', '').encode()]
        exp = '\x01'.join([t[:n], t[:n2], '_'.join(t.split(' '))[:n], t.replace('%', '')[:n2]]).encode()
    elif w == 'doc':
        src = bom + b'X: 1\n----\n' + case['doc'].encode()
        put('t', b'{% block entry %}{{ CONTENT }}\x01{{ EXCERPT }}\x01{{ FIRST_HEADER }}\x01{{ DESCRIPTION }}\x01{{ TOCTREE }}\x01'
            b'{{ RAW_CONTENT }}\x01' + ('{{ CONTENT_%d }}\x01{{ FIRST_HEADER_%d }}' % (case['n'], case['n2'])).encode() + b'{% endblock %}')
    put('s.txt', src)
    r = vlib.run(cmd, cwd=d)
    res.n += 1
    what = '%s with %r bom=%s' % (w, case.get('doc') or data[-200:], case['bom'])
    if res.crash(r, what):
        return res
    res.feats['%s %s' % (w, 'valid' if ok else 'invalid')] += 1
    res.sig(w, case['data'], case['bom'], case.get('doc'), case['end'])
    if not ok:
        if r.rc == 0:
            res.bad('invalid accepted', 'ill-formed UTF-8 was accepted: ' + what)
        elif not r.err.strip() or r.out:
            res.bad('invalid refused badly', 'stdout %r stderr %r: %s' % (r.out[:100], r.err[:200], what))
        return res
    if r.rc != 0:
        res.bad('valid refused', 'valid UTF-8 was refused: %s\n%s' % (what, r.err[:400].decode('utf-8', 'replace')))
        return res
    if not decodes(r.out):
        res.bad('invalid output', 'the output is not valid UTF-8: %r\n%s' % (r.out[:1500], what))
        return res
    if exp is not None:
        got = r.out
        if w in ('content', 'code'):
            m = re.search(rb'\x01.*\x02', got, re.S)
            got = m.group(0) if m else got
        elif w == 'raw':
            got = got[got.find(b'\x01'):got.find(b'\x02') + 1]
        if got != exp:
            res.bad('changed', '%s\nexpected %r\ngot      %r' % (what, exp[-600:], got[-600:]))
        elif len(exp) < 100:
            res.sample = {'where': w, 'text': data.decode(), 'output': r.out.decode()[:200]}
    elif w == 'doc':
        # every character that is not ASCII, in order
        content, raw = r.out.decode().split('\x01')[0], r.out.decode().split('\x01')[5]
        want = case['doc'].lstrip('\r\n')
        if raw != want and case['doc'].strip('\r\n'):
            res.bad('raw content changed', '%s\nRAW_CONTENT is %r' % (what, raw))
        if not any(c in case['doc'] for c in '[]!<>') and 'mailto:' not in content:
            a = [c for c in case['doc'] if ord(c) > 127]
            b = [c for c in re.sub(r'<h\d id="[^"]*">', '', content) if ord(c) > 127]
            b = [c for c in b if c not in '–—' or c in case['doc']]
            if a != b:
                res.bad('characters lost', '%s\nnon-ASCII characters %r became %r' % (what, a, b))
            res.feats['character sequences compared'] += 1
    return res


def shrink(case):
    if case['where'] == 'doc':
        t = case['doc']
        for n in (len(t) // 2, len(t) // 4, 5, 2, 1):
            for k in range(0, len(t), max(1, n)):
                yield dict(case, doc=t[:k] + t[k + n:])


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
