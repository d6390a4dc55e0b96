"""C14: INI configuration files are read as written."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib  # noqa: E402

PID = 'C14'
COUNT = {'quick': 5000, 'thorough': 60000}
HARNESSES = {'asan': ['inidump']}
RULE = ('files generated from a list of sections, keys, values, list items, comments, blank lines with random quoting, '
        'escaping, white space, line endings and end of file, a fifth of them broken at one known place; the parsed '
        'configuration, listed through every accessor, is compared with the generated one; distinct = different file')
MIN_DISTINCT = 2000
ASSUMPTIONS = ['NUL bytes, escaped white space at the ends of unquoted values and text after a section header are left open']
SP = ' \t\f\v'
WORDS = ['a', 'key', 'Título', 'value with spaces', '日本語', 'x=y', '#no comment', ';neither', '[not a section]', 'back\\slash',
         '"quoted"', "it's", '$HOME `id`', 'tab\there', 'e', '', '"', '\\', '""', 'a"b', 'end\\', '😀', 'á\u0300', '=', '%s%n', '\x01\x7f']


def sp(r, p=.5):
    return ''.join(r.choice(SP) for _ in range(r.choice([1, 1, 2, 5]))) if r.random() < p else ''


def word(r, big=True):
    x = r.random()
    if x < .6:
        return r.choice(WORDS)
    if x < .65 and big:
        return 'long ' * r.choice([20, 26, 205, 1000]) + 'end'
    return ''.join(r.choice('abcXYZ 019"\\=#;[]é☃\'!$\t') for _ in range(r.choice([1, 2, 3, 8, 30])))


def gen(rng, i, tier):
    return {'seed': rng.randrange(1 << 40)}


def unquoted(r, v, first):
    """v written without quotes, or None when that is not possible; first: what must not start the text"""
    if v != v.strip(' \t\n\r\f\v') or '\n' in v or '\r' in v:
        return None
    out = ''
    for k, c in enumerate(v):
        if c == '\\' or (k == 0 and c in first) or (r.random() < .05 and c not in SP + '\r\n'):
            out += '\\'
        out += c
    return out


def quoted(r, v):
    return '"' + ''.join(('\\' if c in '"\\' or (r.random() < .04 and c not in '\r\n') else '') + c for c in v) + '"'


class File:
    def __init__(self, r):
        self.r = r
        self.eol = r.choice(['\n', '\n', '\n', '\r\n', '\r'])
        self.out = ''
        self.model = {}
        self.lists = r.sample(['list', 'copy', 'posts', 'l é', ''], r.choice([0, 1, 2, 3]))
        self.lists = [x for x in self.lists if x]
        self.bad = None
        self.line = 1

    def put(self, text, eol=True):
        self.out += text + (self.eol if eol else '')
        self.line += (text + (self.eol if eol else '')).count(self.eol)

    def noise(self):
        r = self.r
        while r.random() < .3:
            self.put(r.choice([sp(r), sp(r, .3) + r.choice('#;') + r.choice(['', ' comment', '[x]', 'key = value', '"', '\\', 'é ' * 600])]))

    def section(self, cur):
        r = self.r
        islist = cur in self.lists
        self.put(sp(r, .2) + '[' + cur + ']')
        self.model.pop(cur, None)
        self.model[cur] = [] if islist else {}
        for _ in range(r.choice([0, 1, 2, 3, 6, 20])):
            self.noise()
            if islist:
                v = word(r)
                # an unquoted item can not be empty, start a section or a comment
                q = unquoted(r, v, '"') if v and v[0] not in '#;[' else None
                if r.random() < .4:
                    q = None
                if q is None:
                    v += r.choice(['', '', '  ', self.eol + 'more', ' '])
                    if r.random() < .3:
                        v = ' ' + v
                    q = quoted(r, v)
                elif q[0] == '\\' and v[0] in SP:
                    continue
                self.put(sp(r, .3) + q + sp(r, .3))
                self.model[cur].append(v)
            else:
                k = r.choice(['k', 'key', 'key2', 'KEY', 'k é', 'a b', 'x.y', 'ke', 'keys', '"k"', 'b\\c', 'n%d' % r.randrange(50), ''])
                v = word(r)
                q = unquoted(r, v, '"') if r.random() < .6 else None
                if q is None:
                    v += r.choice(['', '', '', '  ', self.eol + 'more', ' '])
                    q = quoted(r, v)
                self.put(sp(r, .2) + k + sp(r, .4) + '=' + sp(r, .6) + q + sp(r, .3))
                self.model[cur][k] = v

    def broken(self):
        """One statement that is none of the documented ones; self.bad = its line (None: at the end)"""
        r = self.r
        kinds = ['section newline', 'section eof', 'section start', 'quote eof', 'escape eof']
        maps = [s for s in self.model if s not in self.lists]
        cur = list(self.model)[-1] if self.model else None
        last = None if cur is None else 'list' if cur in self.lists else 'map'
        if last is None:
            kinds += ['no section'] * 4
        if last == 'map':
            kinds += ['no value', 'after quotes'] * 2
        if last == 'list':
            kinds += ['item after quotes'] * 2
        if last is None:
            kinds = [k for k in kinds if k not in ('quote eof', 'escape eof')]
        k = r.choice(kinds)
        self.kind = k
        self.bad = self.line
        tail = True
        if k == 'section newline':
            self.put('[name')
        elif k == 'section start':
            self.put('[')
            self.put('name]')
        elif k == 'section eof':
            self.put(r.choice(['[', '[name', '[ ']), False)
            tail = False
        elif k == 'quote eof':
            self.put(('key = ' if last == 'map' else '') + '"never closed')
            self.put('more')
            tail = False
            self.bad = None
        elif k == 'escape eof':
            self.put(('key = ' if last == 'map' else '') + 'text\\', False)
            tail = False
            self.bad = None
        elif k == 'no section':
            self.put(sp(r, .3) + r.choice(['key = value', 'text', '"x"', ']', '= x', 'é']))
        elif k == 'no value':
            self.put(sp(r, .3) + r.choice(['key', 'key value', '"k"', ']', 'key: value']))
        else:
            self.put(('key = ' if last == 'map' else '') + sp(r, .3) + '"quoted"' + sp(r, .5) + r.choice(['x', '"x"', '# comment', ';', '=', '\\x']))
        if tail:
            for _ in range(r.choice([0, 1, 3])):
                self.put(r.choice(['[other]', 'a = b', '# x', '', '"item"', 'plain']))


def make(case):
    import random
    r = random.Random(case['seed'])
    f = File(r)
    f.noise()
    names = ['global', 'settings', 'dev', 's é', 'a', 'ab', 'abc', '#', 'with space', '=', 'x]'[:1], '"q"', '\\', 'glob'] + f.lists
    # sections named nearly like those that are lists
    names += [x for y in f.lists for x in (y + 's', y[:-1], y + ' ', y.upper(), y + '1') if x and x not in f.lists]
    broken = r.random() < .2
    for _ in range(r.choice([0, 1, 2, 4, 8])):
        f.section(r.choice(names))
        f.noise()
    if broken:
        f.broken()
    elif r.random() < .3 and f.out.endswith(f.eol):
        # the last line without line ending
        f.out = f.out[:-len(f.eol)]
    bom = r.random() < .1
    return f, broken, b'\xef\xbb\xbf' * bom + f.out.encode()


def parse(out):
    m, cur = {}, None
    for line in out.decode().split('\n')[:-1]:
        p = line.split(' ')
        d = ['' if x == '-' else bytes.fromhex(x).decode() if re.fullmatch('[0-9a-f]+', x) and p[0] in ('section', 'key', 'item') else x for x in p[1:]]
        if p[0] == 'section':
            if d[0] in m:
                return 'section %r listed twice' % d[0]
            cur = m[d[0]] = {} if p[2] == 'map' else [] if p[2] == 'list' else None
        elif p[0] == 'key':
            if d[0] in cur:
                return 'key %r listed twice' % d[0]
            cur[d[0]] = d[1]
        elif p[0] == 'item':
            cur.append(d[0])
        else:
            return line
    return m


def run_case(ctx, case):
    res = vlib.Res()
    for sub in range(4):
        one(ctx, dict(case, seed=case['seed'] * 4 + sub) if 'sub' not in case else case, res)
        if res.viol or 'sub' in case:
            break
    return res


def one(ctx, case, res):
    f, broken, data = make(case)
    path = ctx.dir + '/f.ini'
    with open(path, 'wb') as fp:
        fp.write(data)
    p = vlib.run([ctx.asan('inidump'), path] + f.lists)
    res.n += 1
    res.sig(data)
    what = 'file %r, lists %r' % (data[-1500:].decode('utf-8', 'replace'), f.lists)
    if res.crash(p, what):
        return
    if p.rc == 7:
        res.bad('result', p.err.decode() + what)
    elif broken:
        res.feats['broken: ' + f.kind] += 1
        if p.rc == 0:
            res.bad('accepted: ' + f.kind, 'no error for %s' % what)
        elif p.rc != 1 or not p.err.startswith(b'inidump: error: config-parser: '):
            res.bad('error', '%r %r for %s' % (p.rc, p.err[-300:], what))
        elif f.bad is not None:
            m = re.search(rb'Error occurred near line (\d+), position (\d+): ', p.err)
            line = f.bad
            text = f.out.split(f.eol)[line - 1] if f.bad else ''
            if f.kind == 'section eof':
                pass
            elif m is None and text:
                res.bad('no position', '%r for %s' % (p.err[-300:], what))
            elif m and (int(m.group(1)) != line or not 1 <= int(m.group(2)) <= len(text.encode()) + 1):
                res.bad('position', '%r, but the error is in line %d, for %s' % (p.err[-300:], line, what))
    else:
        if p.rc != 0:
            res.bad('refused', '%r for %s' % (p.err[-400:], what))
            return
        got = parse(p.out)
        for s in f.model.values():
            res.feats['items' if isinstance(s, list) else 'keys'] += len(s)
        if got != f.model:
            res.bad('different', 'read %s\nwritten %s\n%s' % (str(got)[:1200], str(f.model)[:1200], what))
    if res.sample is None and len(data) > 20:
        res.sample = {'file': data[:300].decode('utf-8', 'replace')}


def shrink(case):
    if 'sub' not in case:
        for sub in range(4):
            yield {'seed': case['seed'] * 4 + sub, 'sub': 1}


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
