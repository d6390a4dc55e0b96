"""C04: no text of a document is lost, repeated, reordered or left unescaped,
whatever the (also malformed) markup around it."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib  # noqa: E402

PID = 'C04'
COUNT = {'quick': 5000, 'thorough': 60000}
PER = 50
RULE = ('a document is a random sequence of unique words and markup tokens (opened, closed, overlapping and left open, '
        'block prefixes, misaligned lists, four line endings, ends of file anywhere); distinct = different source; '
        'the words and special characters of the rendered content are compared with those of the source, in order')
MIN_DISTINCT = 100
M0, M1 = '\x01\x01', '\x02\x02'
WORD = re.compile(r'Q\d+Z')
ENTS = {'&amp;': '&', '&lt;': '<', '&gt;': '>', '&quot;': '"', '&#x27;': "'", '&#x2F;': '/'}
TAG = re.compile(r'</?(?:em|strong|code|pre|p|ul|ol|li|blockquote)>|<h\d+(?: id="[a-z0-9-]*")?>|</h\d+>|<hr />|<br />')
TOK = re.compile(r'Q\d+Z|[&<>"\'/]')
ATOK = re.compile(r'Q\d+Z|&(?:amp|lt|gt|quot|#x27|#x2F);|[&<>"\'/]')

INL = ['*', '**', '_', '__', '`', '``', '\\', '\\\\', '-', '--', '---', '!', ' ', '  ', '   ', '\t', '***', '___', '```',
       '\\*', '\\_', '\\`', '*_', '_*', '**_', '.', '..', '#', '(', ')', ']', '+', '1.', '{', '}', 'é', '日', '\\\\*']
SPEC = list('&<>"\'/')
LNK = ['[', '[[', ']', ']]', '](', ')', '![', '!', '(', '[]', '[](', '] (', ']\n(', '\\[', '\\]', '\\)', '[![', '][', '()']
LINE = ['', '', '', '', '', '# ', '## ', '###### ', '#', '* ', '*   ', '+ ', '- ', '-', '1. ', '1.  ', '12. ', '1.', '    ',
        '  ', ' ', '\t', '..', '...', '.', '***', '---', '+++', '**', '--', '3.x ', '   ', '     ', '#\t']
BQ = ['> ', '>', '>> ', '>  ', '> > ', '>\t', '> * ', '> 1. ', '>     ', '> # ']


def gen(rng, i, tier):
    docs = []
    for _ in range(PER):
        mode = rng.choice(['plain', 'plain', 'quote', 'link', 'link', 'html'])
        docs.append([mode, make(rng, mode)])
    return docs


class W:
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return 'Q%dZ' % self.n


def line(rng, w, mode):
    toks = []
    inl = INL + (LNK * 3 if mode == 'link' else [])
    # a few lines use a small alphabet, so that marks meet their likes
    if rng.random() < .5:
        inl = rng.sample(inl, rng.randint(2, 5))
    for _ in range(rng.choice([1, 2, 3, 4, 6, 9])):
        k = rng.random()
        if k < .45:
            toks.append(w())
        elif k < .85:
            toks.append(rng.choice(inl))
        elif mode == 'link':
            toks.append(rng.choice('&\'/'))
        else:
            toks.append(rng.choice(SPEC))
        if rng.random() < .2:
            toks.append(' ')
    return ''.join(toks)


def make(rng, mode):
    w = W()
    out = []
    eol = rng.choice(['\n', '\n', '\r\n', '\r', '\n\r'])
    mixed = rng.random() < .1
    prefix = ''
    for _ in range(rng.choice([1, 1, 2, 3, 5, 8, 14])):
        if rng.random() < .5:
            prefix = rng.choice(LINE + (BQ * 2 if mode == 'quote' else []))
        l = line(rng, w, mode)
        if prefix.strip(' \t') == '' and l[:1] in '<>':
            l = w() + l
        if mode != 'quote' and (prefix + l)[:1] in '<>':
            l = w() + l
        if mode == 'quote':
            # no raw HTML: no line of any nesting may start with '<'
            l = re.sub(r'^([>\s]*)<', lambda m: m.group(1) + w() + '<', l)
            if re.match(r'^[>\s]*<', prefix + l):
                l = w() + l
        out.append(prefix + l)
        e = rng.choice(['\n', '\r\n', '\r']) if mixed else eol
        out.append(e * rng.choice([1, 1, 1, 2, 2, 3]))
        if mode == 'html' and rng.random() < .5:
            # the paragraph before is closed by a word and a blank line
            out.append(w() + eol * 2)
            h = '\x03'.join('<' + line(rng, w, 'plain') if k == 0 else rng.choice(LINE[:12] + BQ) + line(rng, w, 'link')
                            for k in range(rng.randint(1, 4)))
            h = h.replace('\x03', eol)
            out.append(h + eol * 2)
            out.append(w() + eol * rng.choice([1, 2]))
    s = ''.join(out)
    k = rng.random()
    if k < .3:
        s = s.rstrip('\r\n')
    if mode == 'html':
        return s
    if k < .15 and len(s) > 2:
        # end of file anywhere, but not inside a word
        n = rng.randrange(1, len(s))
        m = re.search(r'Q\d*$', s[:n])
        s = s[:m.start()] if m else s[:n]
    return s if s else 'Q1Z'


def check(mode, src, out):
    """None, or what is wrong with the rendered content."""
    if mode in ('plain', 'quote'):
        text = TAG.sub('\x00', out).replace('&ndash;', '').replace('&mdash;', '')
        got = []
        for t in ATOK.findall(text):
            if t in ENTS:
                t = ENTS[t]
            elif t in SPEC:
                return 'unescaped %r in %r' % (t, text[max(0, text.index(t) - 30):][:80])
            got.append(t)
        exp = TOK.findall(src)
        if mode == 'quote':
            got = [t for t in got if t != '>']
            exp = [t for t in exp if t != '>']
        if got != exp:
            return 'text %s, expected %s' % (' '.join(got)[:600], ' '.join(exp)[:600])
        return None
    words = WORD.findall(src)
    if mode == 'html':
        # blocks that start with '<' are copied, other words in order
        got = WORD.findall(out)
        # links inside HTML blocks are raw; other lines have none
        if got != words:
            return 'words %s, expected %s' % (' '.join(got)[:600], ' '.join(words)[:600])
        for b in re.split(r'(?:\r\n|\n\r|\n|\r){2,}', src):
            if b.startswith('<') and b not in out:
                return 'raw HTML block %r not in output' % b
        return None
    # links: attributes hold no quotes, since the source has none
    attrs = []

    def attr(m):
        attrs.append(m.group(1))
        return '\x00'
    autos = set()

    def auto(m):
        if m.group(1) == m.group(2):
            autos.update(WORD.findall(m.group(1)))
        return m.group(0)
    re.sub(r'<a href="([^"]*)">([^<]*)</a>', auto, out)
    text = re.sub(r'<a href="([^"]*)">', attr, out)
    text = re.sub(r'<img src="([^"]*" alt="[^"]*)">', attr, text)
    text = text.replace('</a>', '')
    text = TAG.sub('\x00', text)
    inattr = WORD.findall(' '.join(attrs))
    intext = WORD.findall(text)
    if len(set(intext)) != len(intext):
        return 'repeated word in %s' % ' '.join(intext)
    if len(set(inattr)) != len(inattr):
        return 'word in two link targets: %s' % ' '.join(inattr)
    both = set(intext) & set(inattr)
    if not both <= autos:
        return 'both in text and in a link target: %s' % ' '.join(sorted(both - autos))
    lost = set(words) - set(intext) - set(inattr)
    if lost:
        return 'lost: %s' % ' '.join(sorted(lost))
    if intext != [x for x in words if x in set(intext)]:
        return 'order: %s, expected %s' % (' '.join(intext), ' '.join(x for x in words if x in set(intext)))
    m = re.search(r'\(|\[\[|!\[', src)
    pre = WORD.findall(src[:m.start()]) if m else words
    if intext[:len(pre)] != pre:
        return 'words before any link target are not running text: %s, expected first %s' % (
            ' '.join(intext), ' '.join(pre))
    t2 = re.sub(r'&(?:amp|lt|gt|quot|#x27|#x2F|ndash|mdash);', '', text)
    # the text of an automatic link is its target, as it is
    t2 = '' if autos or '[[' in src else t2
    m = re.search(r'[&<>"\'/]', t2)
    if m:
        return 'unescaped %r in %r' % (m.group(), t2[max(0, m.start() - 30):m.start() + 30])
    return None


def run_case(ctx, case):
    res = vlib.Res()
    d = ctx.fresh()
    with open(d + '/t', 'w', newline='') as fp:
        fp.write('{% block listing %}' + M0 + '{{ CONTENT }}' + M1 + '{% endblock %}')
    files = []
    for j, (mode, src) in enumerate(case):
        with open(d + '/%d.txt' % j, 'w', newline='', encoding='utf-8') as fp:
            fp.write('A: b\n---\n' + src)
        files.append('%d.txt' % j)
    r = vlib.run([ctx.asan('blogc'), '-l', '-t', 't'] + files, cwd=d)
    if res.crash(r, 'blogc on %d documents' % len(case)):
        return res
    if r.rc != 0:
        res.bad('exit status', 'blogc exited %s: %s' % (r.rc, r.err[-500:]))
        return res
    got = [x.split(M1)[0] for x in r.out.decode('utf-8', 'surrogateescape').split(M0)[1:]]
    if len(got) != len(case):
        res.bad('entry count', '%d documents rendered of %d' % (len(got), len(case)))
        return res
    for (mode, src), g in zip(case, got):
        res.n += 1
        res.sig(src)
        res.feats['mode ' + mode] += 1
        res.feats['words'] += len(WORD.findall(src))
        e = check(mode, src, g)
        if e:
            res.bad('text ' + mode, '%s\n source %r\n content %r' % (e, src[:2000], g[:2500]))
            if len(res.viol) > 2:
                break
        elif res.sample is None and 40 < len(src) < 300:
            res.sample = {'mode': mode, 'source': src, 'content': g}
    return res


def shrink(case):
    if len(case) > 1:
        for x in case:
            yield [x]
        return
    mode, src = case[0]
    toks = re.findall(r'Q\d+Z|\r\n|.|\n|\r', src)
    for size in (16, 8, 4, 2, 1):
        for k in range(0, len(toks), size):
            s = ''.join(toks[:k] + toks[k + size:])
            if s and (mode in ('link',) or not re.search(r'(^|[\r\n])[>\s]*<', s)) and \
                    (mode != 'plain' or not re.search(r'(^|[\r\n])\s*>', s)):
                yield [[mode, s]]


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
