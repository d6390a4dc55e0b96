"""Generates blogc-template(7) templates as trees, writes them out with random
layout, and interprets the trees: a reference for what blogc must print."""
import calendar
import os
import time

WS = ' \t\n\v\f\r'
NAMES = ['A', 'B', 'AB', 'ABC', 'A_B', 'TITLE', 'TITLES', 'X1', 'X', 'LIST', 'TAGS', 'DATE', 'LONG', 'EMPTY', 'NOPE', 'N_1',
         'N_12', 'N', 'FOO_FORMATTED', 'DATE_MADE', 'Z9_', 'Z9', 'TI', 'L9', 'L09_Z', 'AZ', 'TAGS__ONE', 'LIST__A_B', 'LIST__1', 'LIST__ZZ9', 'DATES',
         'DATES_ON']
ITEMS = ['one', 'two', 'a-b', 'a.b', '1', 'ONE', 'x', 'é', 'zz9', 'a_b', 'one']
VALUES = ['', 'a', 'b', 'ab', 'abc', 'B', 'Title', 'some longer text with words', 'ção é ünï', '日本語テキスト', '<b>&</b>', "it's",
          '{{ A }}', '{% endif %}', '%s %d %n', '\\', 'a\\nb', '10', '9', '😀x', 'a=b', '-1', ' ' 'in  side', '#', '$(x)', 'e\u0301e', 'zz', 'Zz',
          'the same beginning of a long value, ' * 3 + 'a', 'the same beginning of a long value, ' * 3 + 'b', 'long ü ' * 450 + 'x']
TEXTS = ['a', ' ', '\n', '\n\n', '  ', ' x ', '<p>\n', '\n</p>', '{', '}', '}}', '%}', '{ %', '{x', '%', '\t', 'é日', '\v', '\f', '\r\n',
         '-', '%}-', '\\', '"', ' text {and} more ', '#}', '{#', '\u00a0', '\u2003', '0']
OPS = ['==', '!=', '<', '>', '<=', '>=']


def list_value(r):
    return (' ' * r.choice([1, 1, 1, 2, 3])).join(r.choice(ITEMS) for _ in range(r.randint(1, 5)))


def variables(r, p=.5):
    """A random set of variables."""
    out = {}
    for n in NAMES:
        if n in ('NOPE',) or r.random() > p:
            continue
        if n in ('LIST', 'TAGS', 'L9', 'L09_Z'):
            out[n] = r.choice(['', list_value(r), list_value(r), list_value(r), 'one'])
        elif n in ('DATE', 'DATE_MADE') or n == 'DATES' and r.random() < .5:
            out[n] = '%04d-%02d-%02d %02d:%02d:%02d' % (r.randint(1901, 2120), r.randint(1, 12), r.randint(1, 28),
                                                       r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))
        elif n == 'EMPTY':
            out[n] = ''
        else:
            out[n] = r.choice(VALUES).strip(WS)
    return out


DATE_FORMATS = ['%Y-%m-%d', '%b %d, %Y, %I:%M %p GMT', '%j %a', '%d/%m/%y %H:%M:%S', 'é %Y', '%%', '%Y%m%d%H%M%S %A %B']


# ---- trees ---------------------------------------------------------------

def varname(r, foreach):
    n = r.choice(NAMES)
    k = r.random()
    if foreach and r.random() < .5:
        n = r.choice(['FOREACH_ITEM', 'FOREACH_VALUE', 'FOREACH_ITEM', 'FOREACH_VALUE', 'FOREACH_ITEM_2', 'FOREACH_VALUE_3'])
        return n
    if k < .1:
        return r.choice(['DATE_FORMATTED', 'DATE_FORMATTED', 'DATE_MADE_FORMATTED', 'DATES_FORMATTED'])
    if k < .14:
        return 'DATE_FORMATTED_%d' % r.choice([1, 4, 10, 50])
    if k < .32:
        return n + '_%d' % r.choice([1, 2, 3, 5, 8, 12, 100, 1000, 99999, 2147483649, 4294967297])
    if k < .34:
        return n + '_FORMATTED'
    if k < .36:
        return r.choice(['FOREACH_ITEM', 'FOREACH_VALUE', 'A_', 'A_B_', 'N_1_2', 'X1_1', 'AB_0x'[:4]])
    return n


def body(r, depth, ctx):
    """ctx: (inside block, inside foreach)"""
    out = []
    for _ in range(r.randint(0, 4)):
        k = r.random()
        if k < .35:
            out.append(['text', ''.join(r.choice(TEXTS) for _ in range(r.randint(1, 3)))])
        elif k < .62 or depth <= 0:
            out.append(['var', varname(r, ctx[1])])
        elif k < .82:
            out.append(cond(r, depth - 1, ctx))
        elif k < .91 and not ctx[1]:
            out.append(['foreach', r.choice(['LIST', 'TAGS', 'LIST', 'A', 'NOPE', 'LONG', 'EMPTY', 'L9', 'L09_Z']),
                        body(r, depth - 1, (ctx[0], True))])
        elif not ctx[0]:
            out.append(['block', r.choice(['entry', 'listing', 'listing', 'listing_once', 'listing_empty', 'listing_entry']),
                        body(r, depth - 1, (True, ctx[1]))])
        else:
            out.append(['var', varname(r, ctx[1])])
    return out


def cond(r, depth, ctx):
    k = r.random()
    name = varname(r, ctx[1])
    if k < .3:
        c = ['ifdef', name]
    elif k < .5:
        c = ['ifndef', name]
    else:
        if r.random() < .6:
            v = r.choice(VALUES + ITEMS)
            if '"' in v or v.endswith('\\'):
                v = 'q'
            c = ['if', name, r.choice(OPS), '"' + v + '"']
            if r.random() < .05:
                # a quotation mark inside; no value equals this, escaped or not
                c = ['if', name, r.choice(['==', '!=']), r.choice(['"\\"say\\""', '"6\\""', '"a \\"b c"', '"\\""'])]
        else:
            c = ['if', name, r.choice(OPS), varname(r, ctx[1])]
    els = body(r, depth, ctx) if r.random() < .55 else None
    return ['cond', c, body(r, depth, ctx), els]


# ---- writing -------------------------------------------------------------
# The tree is flattened to a list of tokens; texts next to each other are merged.

def flatten(nodes, out):
    for n in nodes:
        if n[0] == 'text':
            out.append(['text', n[1]])
        elif n[0] == 'var':
            out.append(['var', n[1]])
        elif n[0] == 'cond':
            out.append(['stmt', ' '.join(n[1]) if n[1][0] != 'if' else n[1], n])
            flatten(n[2], out)
            if n[3] is not None:
                out.append(['stmt', 'else'])
                flatten(n[3], out)
            out.append(['stmt', 'endif'])
        elif n[0] == 'foreach':
            out.append(['stmt', 'foreach ' + n[1], n])
            flatten(n[2], out)
            out.append(['stmt', 'endforeach'])
        elif n[0] == 'block':
            out.append(['stmt', 'block ' + n[1], n])
            flatten(n[2], out)
            out.append(['stmt', 'endblock'])
    return out


def ws(r, least=0):
    return ''.join(r.choice('     \n\t') for _ in range(r.choice([least, 1, 1, 1, 2]) if least < 2 else least))


def normalise(nodes):
    """Merges neighbouring texts and makes no text end in '{' or contain an opening."""
    out = []
    for n in nodes:
        if n[0] == 'text':
            if out and out[-1][0] == 'text':
                out[-1] = ['text', out[-1][1] + n[1]]
            else:
                out.append(list(n))
        elif n[0] == 'cond':
            out.append(['cond', n[1], normalise(n[2]), None if n[3] is None else normalise(n[3])])
        elif n[0] in ('foreach', 'block'):
            out.append([n[0], n[1], normalise(n[2])])
        else:
            out.append(list(n))
    for n in out:
        if n[0] == 'text':
            t = n[1].replace('{%', '{ %').replace('{{', '{ ')
            while '{{' in t or '{%' in t:
                t = t.replace('{%', '%').replace('{{', '{')
            n[1] = t + '.' if t.endswith('{') else t
    return out


def write(nodes, r, trim=.3, layout=True):
    """(template source, token list with the text left after trimming)"""
    toks = flatten(nodes, [])
    src = []
    marks = []
    for t in toks:
        if t[0] == 'stmt':
            marks.append((r.random() < trim, r.random() < trim))
        else:
            marks.append(None)
    for i, t in enumerate(toks):
        if t[0] == 'text':
            src.append(t[1])
            s = t[1]
            if i and marks[i - 1] and marks[i - 1][1]:
                s = s.lstrip(WS)
            if i + 1 < len(toks) and marks[i + 1] and marks[i + 1][0]:
                s = s.rstrip(WS)
            t.append(s)
        elif t[0] == 'var':
            a, b = (ws(r), ws(r)) if layout else (' ', ' ')
            src.append('{{' + a + t[1] + b + '}}')
        else:
            a, b = marks[i]
            st = t[1]
            if isinstance(st, list):
                _, name, op, opd = st
                st = 'if' + ws(r, 1).ljust(1) + name + ws(r, 1).ljust(1) + op + ws(r, 1).ljust(1) + opd if layout else \
                    'if %s %s %s' % (name, op, opd)
                tail = ws(r) if layout and opd[0] == '"' else (ws(r).ljust(1) if layout else ' ')
            else:
                if layout:
                    st = st.replace(' ', ws(r, 1).ljust(1))
                tail = ws(r).ljust(1) if layout else ' '
            src.append('{%' + ('-' if a else '') + (ws(r) if layout else ' ') + st + tail + ('-' if b else '') + '%}')
    return ''.join(src), toks


# ---- the reference interpreter --------------------------------------------

class Taint(Exception):
    pass


def trunc_split(name):
    """FOO_5 -> (FOO, 5)"""
    i = len(name)
    while i > 0 and name[i - 1].isdigit():
        i -= 1
    if i < len(name) and i > 0 and name[i - 1] == '_':
        return name[:i - 1], int(name[i:])
    return name, None


def gmt(date):
    """The instant of a full or partial date, as a struct_time."""
    d, _, t = date.partition(' ')
    y, m, dd = d.split('-')
    hms = (t.split(':') if t else []) + ['0', '0', '0']
    y, m, dd = int(y), int(m), int(dd)
    wd = calendar.weekday(y, m, dd)
    yd = sum(calendar.monthrange(y, k)[1] for k in range(1, m)) + dd
    return time.struct_time((y, m, dd, int(hms[0]), int(hms[1]), int(hms[2]), wd, yd, 0))


def strftime(fmt, t):
    # fmt holds only conversions that do not depend on the locale (C.UTF-8)
    return time.strftime(fmt.encode('utf-8').decode('latin-1'), t).encode('latin-1').decode('utf-8') \
        if not fmt.isascii() else time.strftime(fmt, t)


class Env:
    def __init__(self, glob, local=None, foreach=None):
        self.g, self.l, self.f = glob, local, foreach

    def lookup(self, name):
        if self.l is not None and name in self.l:
            return self.l[name]
        return self.g.get(name)

    def foreach_value(self):
        lname, item = self.f
        key = lname + '__'
        for b in item.encode('utf-8'):
            c = chr(b)
            key += c.upper() if c.isascii() and c.isalnum() else '_'
        # the list's own name is upper case already
        return self.lookup(key)

    def get(self, name):
        v = self.lookup(name)
        if v is not None:
            return v
        if name == 'FOREACH_ITEM':
            return self.f[1] if self.f else None
        if name == 'FOREACH_VALUE':
            return self.foreach_value() if self.f else None
        base, n = trunc_split(name)
        fmtd = False
        if base.endswith('_FORMATTED'):
            base, fmtd = base[:-10], True
        if base == 'FOREACH_ITEM' and self.f:
            v = self.f[1]
        elif base == 'FOREACH_VALUE' and self.f:
            v = self.foreach_value()
        else:
            v = self.lookup(base)
        if v is None:
            return None
        if fmtd and name.startswith('DATE_'):
            f = self.lookup('DATE_FORMAT')
            if f is not None:
                v = strftime(f, gmt(v))
        if n:
            v = v[:n]
        return v


def evaluate(c, env):
    a = env.get(c[1])
    if c[0] == 'ifdef':
        return a is not None
    if c[0] == 'ifndef':
        return a is None
    b = c[3][1:-1] if c[3].startswith('"') else env.get(c[3])
    if a is None or b is None:
        return False
    x, y = a.encode('utf-8'), b.encode('utf-8')
    return {'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[c[2]]


class Interp:
    def __init__(self, toks, glob, sources, entries, listing, feats=None):
        self.t, self.g, self.s, self.e, self.listing = toks, glob, sources, list(entries), listing
        self.feats = feats if feats is not None else {}
        self.leak = False          # see entry_leak
        self.ran_entry = False

    def hit(self, f):
        self.feats[f] = self.feats.get(f, 0) + 1

    def end(self, i):
        """index of the token that closes the statement at i"""
        d = 0
        kinds = {'if': 'endif', 'ifdef': 'endif', 'ifndef': 'endif', 'foreach': 'endforeach', 'block': 'endblock'}
        first = self.word(i)
        close = kinds[first]
        same = [k for k, v in kinds.items() if v == close]
        while True:
            w = self.word(i)
            if w in same:
                d += 1
            elif w == close:
                d -= 1
                if d == 0:
                    return i
            i += 1

    def word(self, i):
        t = self.t[i]
        if t[0] != 'stmt':
            return None
        return t[1][0] if isinstance(t[1], list) else t[1].split(' ')[0]

    def els(self, i, j):
        d = 0
        for k in range(i, j):
            w = self.word(k)
            if w in ('if', 'ifdef', 'ifndef'):
                d += 1
            elif w == 'endif':
                d -= 1
            elif w == 'else' and d == 1:
                return k
        return None

    def run(self):
        return self.seq(0, len(self.t), Env(self.g))

    def seq(self, i, j, env):
        out = []
        while i < j:
            t = self.t[i]
            if t[0] == 'text':
                out.append(t[2])
                i += 1
                continue
            if t[0] == 'var':
                self.scope(t[1], env)
                v = env.get(t[1])
                self.hit('variable ' + ('undefined' if v is None else 'defined'))
                out.append(v or '')
                i += 1
                continue
            w, k = self.word(i), self.end(i)
            if w in ('if', 'ifdef', 'ifndef'):
                c = t[1] if isinstance(t[1], list) else t[1].split(' ')
                for n in c[1:2] + ([c[3]] if len(c) > 3 and c[3][0] != '"' else []):
                    self.scope(n, env)
                e = self.els(i, k)
                b = evaluate(c, env)
                self.hit('%s %s%s' % (w, b, ' with else' if e else ''))
                if b:
                    out.append(self.seq(i + 1, e if e is not None else k, env))
                elif e is not None:
                    out.append(self.seq(e + 1, k, env))
            elif w == 'foreach':
                name = t[1].split(' ')[1]
                self.scope(name, env)
                v = env.lookup(name)
                items = [x for x in (v or '').split(' ') if x]
                self.hit('foreach of %d' % min(len(items), 3))
                for x in items:
                    out.append(self.seq(i + 1, k, Env(env.g, env.l, (name, x))))
            else:
                out.append(self.block(t[1].split(' ')[1], i + 1, k, env))
            i = k + 1
        return ''.join(out)

    def scope(self, name, env):
        if self.leak and env.l is None and name is not None:
            raise Taint()

    def block(self, kind, i, j, env):
        f = env.f
        ran = True
        out = ''
        if kind == 'entry':
            ran = not self.listing
            if ran:
                self.ran_entry = True
                self.leak = False
                out = self.seq(i, j, Env(self.g, self.s[0], f))
        elif kind == 'listing':
            ran = self.listing and bool(self.s)
            if ran:
                out = ''.join(self.seq(i, j, Env(self.g, s, f)) for s in self.s)
        elif kind == 'listing_once':
            ran = self.listing
            if ran:
                out = self.seq(i, j, Env(self.g, None, f))
        elif kind == 'listing_empty':
            ran = self.listing and not self.s
            if ran:
                out = self.seq(i, j, Env(self.g, None, f))
        else:
            e = self.e.pop(0) if self.e else None
            ran = self.listing and e is not None
            if ran:
                out = self.seq(i, j, Env(self.g, e, f))
        self.hit('block %s %s' % (kind, 'shown' if ran else 'skipped'))
        if not ran and not self.listing and self.ran_entry:
            # known finding of C02: after a skipped block the text outside of
            # blocks still sees the variables of the entry
            self.leak = True
        return out
