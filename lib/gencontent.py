"""Generates blogc-source(7) content together with the HTML it must render to.

Every element is emitted twice at once: as markup and as the HTML the manual
prescribes, so no parser of the markup is needed to know what is expected.
Line breaks are '\n' in both and replaced by the wanted line ending at the end."""

ENT = {'&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&quot;', "'": '&#x27;', '/': '&#x2F;'}


def esc(s):
    return ''.join(ENT.get(c, c) for c in s)


def slugify(title):
    out = []
    for b in title.encode('utf-8'):
        c = chr(b)
        if c.isascii() and c.isalnum():
            out.append(c.lower())
        else:
            out.append('-')
    return ''.join(out)


LATIN = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
UNI = ['é', 'ß', 'ção', '日本', '語', 'Ω', '😀', 'ñandú', 'ж', '\u200b', 'e\u0301', '\u00a0']
PUNCT = [',', '.', ';', ':', '?', '=', '+', '#', '@', '%', '^', '~', '|', '$', '{', '}', '(', ')']


class G:
    def __init__(self, rng, unicode=True):
        self.r = rng
        self.uni = unicode

    def word(self):
        r = self.r
        n = r.choice((1, 2, 3, 4, 5, 7, 9))
        w = ''.join(r.choice(LATIN) for _ in range(n))
        k = r.random()
        if k < .12:
            w += str(r.randrange(1000))
        elif k < .20 and self.uni:
            w = w + r.choice(UNI) + r.choice(('', w[:1]))
        elif k < .24 and self.uni:
            w = r.choice(UNI[:9])
        return w

    # ---- inline ---------------------------------------------------------
    # each returns (markup, html).  'ban' is the set of characters that would
    # close an enclosing element; 'inl' is true inside the text of a link.

    def text_tok(self, ban, inl, first):
        """A piece of running text without markup."""
        r = self.r
        w = self.word()
        k = r.random()
        if k < .22:
            c = r.choice('&<>"\'/')
            w = r.choice((w + c, w + c + self.word(), (c + w) if not first or c in '&"\'/' else w + c))
        elif k < .34:
            c = r.choice(PUNCT)
            if inl and c == ')':
                c = ';'
            w = w + c + (self.word() if r.random() < .3 else '')
        elif k < .37:
            w = w + '-' + self.word()
        elif k < .39:
            w = w + '!' + (' ' + self.word())
        elif k < .41 and ']' not in ban and not inl:
            w = r.choice(['%s] %s', '[%s] %s', '![%s] %s', '![%s]. %s', '[%s]\t%s']) % (w, self.word())
        elif k < .44 and not first:
            w = '%d %s' % (r.randrange(10000), w)
        elif k < .46 and not first:
            w = '%d. %s' % (r.randrange(100), w)
        elif k < .48:
            w = w + ' ' * r.randint(2, 4) + self.word()
        elif k < .49:
            w = w + '\t' + self.word()
        elif k < .50 and not first:
            w = r.choice(('- ', '+ ', '# ', '> ', '.. ', '= ')) + w
        return w, esc(w)

    def escape(self, ban, inl):
        r = self.r
        c = r.choice('*_`[]!-\\.#+(){}<>&"\'/')
        return '\\' + c, esc(c)

    def code(self, ban, inl):
        r = self.r
        double = r.random() < .4
        parts = []
        for _ in range(r.randint(1, 4)):
            k = r.random()
            if k < .5:
                parts.append(self.word())
            elif k < .7:
                parts.append(r.choice(['&', '<', '>', '"', "'", '/', '<b>', '&amp;', '</p>']))
            elif k < .85:
                c = r.choice(['*', '_', '**', '__', '[', ']', '![', '--', '---', '(x)', '#', '  ', '[a](b)', '!', '[['])
                if any(x in ban for x in c) or (inl and ('[' in c or ']' in c)):
                    c = '%'
                parts.append(c)
            elif k < .92:
                parts.append('\\' + r.choice(LATIN))
            else:
                parts.append(' ' if r.random() < .7 else '\n')
        s = ''.join(parts)
        if double and r.random() < .5:
            # a lone backquote, neither first nor last nor doubled
            s = 'a' + s + '`' + 'b' + self.word()
        s = s.replace('\n\n', '\n').strip('\n') or 'x'
        if s[0] == '`' or s[-1] in '`\\':
            s = 'x' + s + 'x'
        m = '``' if double else '`'
        return m + s + m, '<code>' + esc(s) + '</code>'

    def url(self, ban, close):
        r = self.r
        base = r.choice(['http://', 'https://', '/', '', 'mailto:', '../', '#', '//'])
        s = base + '/'.join(self.word() for _ in range(r.randint(1, 3)))
        k = r.random()
        if k < .25:
            s += '?a=%d&b=%s' % (r.randrange(99), self.word())
        elif k < .35:
            s += '.html#' + self.word()
        elif k < .45:
            c = r.choice('_*`-~"\'<>!')
            if c not in ban and c != '`':
                s += c + self.word()
        elif k < .5 and close == ')':
            s += '(x'
        src, out = s, s
        if close == ')' and r.random() < .12:
            w = self.word()
            src += '\\)' + w
            out += ')' + w
        if r.random() < .08:
            c = r.choice('\\_*[]')
            if close == ')' or c not in '[]':
                w = self.word()
                src += '\\' + c + w
                out += c + w
        return src, out

    def gap(self):
        r = self.r
        return '' if r.random() < .7 else r.choice([' ', '\n', '  ', '\t', ' \n', '\n  '])

    def link(self, ban, inl, depth):
        ts, th = self.inlines(ban | {'[', ']'}, True, depth - 1, self.r.randint(1, 4))
        if self.r.random() < .1:
            w = self.word()
            n = self.r.choice([1, 1, 2, 3, 4, 6, 9])
            w = ' ' + ('[' + w + ' ') * n + w + ']' * n + ' ' + w
            ts, th = ts + w, th + w
        us, uh = self.url(ban, ')')
        return '[' + ts + ']' + self.gap() + '(' + us + ')', '<a href="' + uh + '">' + th + '</a>'

    def image(self, ban, inl):
        r = self.r
        alt = ' '.join(self.word() for _ in range(r.randint(1, 3)))
        asrc, aout = alt, alt
        if r.random() < .15 and not inl:
            asrc += '\\]' + alt[:2]
            aout += ']' + alt[:2]
        us, uh = self.url(ban, ')')
        return '![' + asrc + ']' + self.gap() + '(' + us + ')', '<img src="' + uh + '" alt="' + aout + '">'

    def autolink(self, ban, inl):
        us, uh = self.url(ban | {'[', ']'}, ']')
        return '[[' + us + ']]', '<a href="' + uh + '">' + uh + '</a>'

    def emph(self, ban, inl, depth):
        r = self.r
        c = r.choice([x for x in '*_' if x not in ban])
        s, h = self.inlines(ban | {c}, inl, depth - 1, r.randint(1, 3))
        if r.random() < .5:
            return c + s + c, '<em>' + h + '</em>'
        if r.random() < .12 and c not in s and '\\' not in s:
            w = self.word()
            s, h = s + ' ' + c + w + c + ' ' + w, h + ' <em>' + w + '</em> ' + w
        return c + c + s + c + c, '<strong>' + h + '</strong>'

    def dash(self):
        r = self.r
        a, b = r.choice([('--', '&ndash;'), ('---', '&mdash;')])
        sp = r.choice(['', ' '])
        w1, w2 = self.word(), self.word()
        return w1 + sp + a + sp + w2, w1 + sp + b + sp + w2

    def inlines(self, ban=frozenset(), inl=False, depth=3, n=4, block_start=False):
        """A sequence of inline elements that neither starts nor ends with
        white space."""
        r = self.r
        ban = frozenset(ban)
        out_s, out_h = [], []
        prev_text = False
        for i in range(n):
            first = i == 0
            k = r.random()
            kind = 'text'
            if depth > 0 and k > .42:
                kind = r.choice(['emph', 'emph', 'emph', 'code', 'code', 'link', 'link', 'image', 'auto', 'escape',
                                 'escape', 'dash', 'br', 'nl'])
            if kind == 'emph' and {'*', '_'} <= ban:
                kind = 'code'
            if kind in ('auto',) and inl:
                kind = 'image'
            if kind == 'link' and inl:
                kind = 'image'
            if kind in ('br', 'nl') and (first or i == n - 1):
                kind = 'text'
            if kind == 'text':
                s, h = self.text_tok(ban, inl, first and block_start)
            elif kind == 'emph':
                s, h = self.emph(ban, inl, depth)
            elif kind == 'code':
                s, h = self.code(ban, inl)
            elif kind == 'link':
                s, h = self.link(ban, inl, depth)
            elif kind == 'image':
                s, h = self.image(ban, inl)
            elif kind == 'auto':
                s, h = self.autolink(ban, inl)
            elif kind == 'escape':
                s, h = self.escape(ban, inl)
            elif kind == 'dash':
                s, h = self.dash()
            elif kind == 'br':
                s, h = ' ' * r.randint(2, 4) + '\n', '<br />\n'
            else:
                s = r.choice(['\n', '\n', '\n', ' \n', '\n ', '\n   '])
                h = s
            # what joins this element to the one before
            if out_s and kind not in ('br', 'nl') and not out_s[-1][-1:].isspace():
                if r.random() < .75 or self.clash(out_s[-1], s):
                    out_s.append(' ')
                    out_h.append(' ')
            elif out_s and kind in ('br', 'nl') and out_s[-1][-1:].isspace():
                continue
            out_s.append(s)
            out_h.append(h)
        while out_s and out_s[-1].isspace():
            out_s.pop()
            out_h.pop()
        if not out_s:
            w = self.word()
            return w, w
        return ''.join(out_s), ''.join(out_h)

    @staticmethod
    def clash(a, b):
        """Would joining markup a and b directly make another construct?"""
        x, y = a[-1], b[0]
        if x == '!' and y == '[':
            return True
        if x == y and x in '*_`-[]':
            return True
        if x == '-' or y == '-':
            return True
        if x == ']' and y in '([]':
            return True
        if x in '*_`' and y in '*_`':
            return True
        if y == '\\' or x == '\\':
            return y in '*_`[]!-\\' and x in '*_`[]!-\\' and x == y
        return False

    # ---- blocks ---------------------------------------------------------
    def nonblank(self, s):
        """Markup must not contain blank lines (they would end the block)."""
        return all(l.strip(' \t') for l in s.split('\n'))

    def inline_block(self, n=None, block_start=True, single=False):
        r = self.r
        for _ in range(200):
            s, h = self.inlines(depth=3, n=n or r.randint(1, 8), block_start=block_start)
            if single and '\n' in s:
                continue
            if s[-1] in ' \t' or not self.nonblank(s):
                continue
            if block_start and not self.par_start_ok(s):
                continue
            if r.random() < .04:
                # marks that nothing closes are text
                t = r.choice(['![%s', '[%s', '![%s](%s', '[%s](%s', '[%s]  (%s', '**%s', '*%s', '__%s', '_%s', '`%s', '``%s', '[[%s', '[[%s]', '![%s] %s', '[%s]', '![%s]', '[', '![', '*', '_', '`', '**', '__', '``', '[[', '%s!'])
                n = t.count('%s')
                t = t % tuple(self.word() for _ in range(n))
                s, h = s + ' ' + t, h + ' ' + esc(t)
            return s, h
        w = self.word()
        return w, w

    @staticmethod
    def par_start_ok(s):
        c = s[0]
        if c in '.#+-<> \t0123456789':
            return False
        if c == '*':
            # emphasis: *x or **x
            t = s.lstrip('*')
            n = len(s) - len(t)
            return n in (1, 2) and t[:1] not in ('', ' ', '\t', '\n')
        return True

    def paragraph(self):
        r = self.r
        s, h = self.inline_block()
        k = r.random()
        if k < .06:
            n = r.randint(0, 9999)
            s, h = '%d\\. %s' % (n, s), '%d. %s' % (n, h)
        elif k < .10:
            n = r.randint(0, 9999)
            s, h = '%d %s' % (n, s), '%d %s' % (n, h)
        elif k < .13:
            return self.hashpar()
        elif k < .22:
            # lines that would start another block, were they not a continuation
            l = r.choice(['# x', '* x', '- x', '1. x', '> x', '    x', '..', '***', '<b>', '---x', '+ x', '#x'])
            w = self.word()
            hl = esc(l).replace('---', '&mdash;')
            if l in ('***', '* x'):
                l, hl = '+ x', '+ x'
            s, h = s + '\n' + l + '\n' + w, h + '\n' + hl + '\n' + w
        if r.random() < .04:
            s, h = s + ' ' * r.randint(2, 3), h + '<br />'
        return {'kind': 'p', 'src': s, 'html': '<p>' + h + '</p>\n'}

    def hashpar(self):
        r = self.r
        s, h = self.inline_block()
        m = r.choice(['#', '##', '.', '.x', '..x', '...y']) + self.word()
        return {'kind': 'p', 'src': m + ' ' + s, 'html': '<p>' + m + ' ' + h + '</p>\n'}

    def header(self, maxlevel=6):
        r = self.r
        lv = r.randint(1, maxlevel)
        s, h = self.inline_block(n=r.randint(1, 4), block_start=False, single=True)
        if s[0] in ' \t':
            s, h = self.word(), None
            h = s
        gap = r.choice([' ', ' ', ' ', '\t', '  '])
        return {'kind': 'h', 'level': lv, 'title': s, 'thtml': h, 'slug': slugify(s), 'src': '#' * lv + gap + s,
                'html': '<h%d id="%s">%s</h%d>\n' % (lv, slugify(s), h, lv)}

    def html(self):
        r = self.r
        lines = []
        for i in range(r.randint(1, 4)):
            k = r.random()
            l = self.word() + r.choice(['', ' & ', '</b>', ' *x* [y](z)', '  ', ' "q" \'s\' /', ' `c` --', '\\*', ' <br>'])
            if k < .4:
                l = '<div class="%s">%s' % (self.word(), l)
            elif k < .5:
                l = '  <p>' + l
            elif k < .6:
                l = r.choice(['# ', '> ', '* ', '1. ', '..']) + l
            lines.append(l)
        if lines[0][0] != '<':
            lines[0] = r.choice(['<p>', '<!-- ', '<a href="x">', '<']) + lines[0]
        s = '\n'.join(lines)
        return {'kind': 'html', 'src': s, 'html': s + '\n'}

    def codeblock(self):
        r = self.r
        prefix = r.choice(['    ', '\t', ' ', '  ', '        ', ' \t'])
        lines = []
        n = r.randint(1, 5)
        for i in range(n):
            l = self.word()
            k = r.random()
            if k < .5:
                l += ' ' + r.choice(['<b>&amp;', '"x" \'y\' / z', '*a* _b_ `c`', '[x](y)', '\\*', '  two', '--', '> q', '1. z'])
            if i and r.random() < .3:
                l = ' ' * r.randint(1, 4) + l
            if i and i < n - 1 and r.random() < .1:
                l = ''
            if i and r.random() < .1:
                l = r.choice(['# ', '* ', '> ', '1. ', '.. ', '<p>']) + l
            lines.append(l)
        if lines[-1] == '':
            lines[-1] = 'x'
        return {'kind': 'code', 'src': '\n'.join(prefix + l for l in lines),
                'html': '<pre><code>' + '\n'.join(esc(l) for l in lines) + '</code></pre>\n'}

    def hr(self):
        r = self.r
        c = r.choice('*-+')
        return {'kind': 'hr', 'src': c * r.choice([3, 3, 3, 4, 5, 10, 40]), 'html': '<hr />\n'}

    def items(self, first_ok):
        r = self.r
        out = []
        for _ in range(r.randint(1, 5)):
            for _ in range(100):
                s, h = self.inline_block(n=r.randint(1, 4), block_start=False)
                if s[0] in ' \t\n' or not first_ok(s):
                    continue
                # continuation lines may not start with white space of their own here
                break
            else:
                s, h = 'item', 'item'
            out.append((s, h))
        return out

    def ul(self):
        r = self.r
        m = r.choice('*+-')
        prefix = m + r.choice([' ', ' ', '  ', '   ', '\t', ' \t'])
        lines, lis = [], []
        for s, h in self.items(lambda s: s[0] not in '*+-'):
            ls = s.split('\n')
            lines.append(prefix + ls[0])
            lines += [' ' * len(prefix) + l for l in ls[1:]]
            lis.append('<li>%s</li>\n' % h)
        return {'kind': 'ul', 'src': '\n'.join(lines), 'html': '<ul>\n' + ''.join(lis) + '</ul>\n'}

    def ol(self):
        r = self.r
        items = self.items(lambda s: True)
        nums = [str(r.choice([i + 1, r.randrange(10), r.randrange(100), 0, 7, r.choice([100, 999, 2024, 12345, 4294967296])])) for i in range(len(items))]
        width = max(len(n) for n in nums) + 1 + r.randint(1, 3)
        lines, lis = [], []
        tab = r.random() < .05 and all(len(n) == len(nums[0]) for n in nums)
        for num, (s, h) in zip(nums, items):
            ls = s.split('\n')
            pre = num + '.'
            pre += ('\t' if tab else ' ') * (width - len(pre))
            lines.append(pre + ls[0])
            lines += [' ' * width + l for l in ls[1:]]
            lis.append('<li>%s</li>\n' % h)
        return {'kind': 'ol', 'src': '\n'.join(lines), 'html': '<ol>\n' + ''.join(lis) + '</ol>\n'}

    def blockquote(self, depth):
        r = self.r
        prefix = '>' + r.choice([' ', ' ', ' ', '  ', '', '\t', '    '])
        for _ in range(50):
            blocks = self.blocks(r.randint(1, 3), depth - 1, quoted=True)
            if blocks[0]['kind'] == 'code':
                continue
            src, html = join(blocks)
            if src[0] in ' \t':
                continue
            break
        else:
            src, html = 'x', '<p>x</p>\n'
        return {'kind': 'bq', 'src': '\n'.join(prefix + l for l in src.split('\n')),
                'html': '<blockquote>' + html + '</blockquote>\n', 'depth': depth}

    def excerpt(self):
        return {'kind': 'ex', 'src': '.' * self.r.choice([2, 3, 3, 4, 8]), 'html': ''}

    def block(self, depth, quoted):
        r = self.r
        k = r.choice(['p', 'p', 'p', 'p', 'h', 'h', 'html', 'code', 'hr', 'ul', 'ul', 'ol', 'ol', 'bq', 'bq', 'ex'])
        if k == 'bq' and depth <= 0 or (k == 'ex' and quoted):
            k = 'p'
        if k == 'bq':
            return self.blockquote(depth)
        return {'p': self.paragraph, 'h': self.header, 'html': self.html, 'code': self.codeblock, 'hr': self.hr,
                'ul': self.ul, 'ol': self.ol, 'ex': self.excerpt}[k]()

    def blocks(self, n, depth=3, quoted=False):
        r = self.r
        out = []
        for i in range(n):
            b = self.block(depth, quoted)
            b['sep'] = '\n' * r.choice([2, 2, 2, 2, 3, 4])
            if b['kind'] in ('h', 'hr') and r.random() < .35:
                b['sep'] = '\n'
            out.append(b)
        return out


def join(blocks):
    """(source, html) of a list of blocks; the last separator is left out."""
    src = ''.join(b['src'] + b['sep'] for b in blocks[:-1]) + (blocks[-1]['src'] if blocks else '')
    return src, ''.join(b['html'] for b in blocks)


def document(rng, n=None, tail=None, unicode=True):
    g = G(rng, unicode)
    return g.blocks(n or rng.choice([1, 1, 2, 3, 4, 5, 7, 10]), depth=rng.choice([0, 1, 2, 3]))


EOLS = ['\n', '\r\n', '\r', '\n\r']


def finish(src, html, eol, tail):
    """Applies a line ending; html keeps '\\n' if the source has no line ending."""
    full = src + tail
    if '\n' not in full:
        return full, html
    return full.replace('\n', eol), html.replace('\n', eol)
