"""C31: the containers behave as maps, lists and strings of any size and content."""
import os
import shlex
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib  # noqa: E402

PID = 'C31'
COUNT = {'quick': 4000, 'thorough': 40000}
HARNESSES = {'asan': ['containers']}
RULE = ('random sequences of operations on eight maps, lists and strings and calls of the string functions, run against '
        'dict, list and bytes models; keys share prefixes and extend each other; contents of any byte but NUL, lengths up to '
        'some 10000; distinct = different operations with different arguments in a different state')
MIN_DISTINCT = 5000
ASSUMPTIONS = ['no allocation fails', 'maps are not given NULL keys or values']
WS = b' \t\n\r\f\v'


def hx(b):
    return '~' if b is None else b.hex() or '-'


def rbytes(r, n, alpha=None):
    if alpha is None:
        return bytes(r.randrange(1, 256) for _ in range(n))
    return bytes(r.choice(alpha) for _ in range(n))


def length(r):
    if r.random() < .0012:
        return r.choice([4095, 65535, 65536, 70001])
    return r.choice([0, 0, 1, 1, 2, 3, 5, 9, 20, r.randrange(130), 126, 127, 128, 129, 255, 256, 383, 384, r.randrange(3000)])


def gen(rng, i, tier):
    return {'seed': rng.randrange(1 << 40), 'n': rng.choice([20, 100, 400]), 'kind': rng.choice(['trie', 'list', 'string', 'function', 'mixed'])}


def key(r, keys):
    x = r.random()
    if keys and x < .3:
        return r.choice(keys)
    if keys and x < .5:
        k = r.choice(keys)
        return k[:r.randrange(len(k) + 1)]
    if keys and x < .75:
        return r.choice(keys) + rbytes(r, r.choice([1, 1, 2, 5]), b'ab_\xff\x80z')
    if x < .8:
        return rbytes(r, r.choice([1, 2, 40]))
    return rbytes(r, r.choice([0, 1, 2, 3, 5, 8, 30]), b'abAB_0')


def quoted(r, q):
    """what a shell makes of q"""
    return shlex.split(q.decode('latin1'))


def bc_find(a, c):
    i = 0
    while i < len(a):
        if a[i] == 0x5c:
            i += 2
            continue
        if a[i] == c:
            return i
        i += 1
    return -1


def unescape(a):
    out, esc = bytearray(), False
    for c in a:
        if c == 0x5c and not esc:
            esc = True
            continue
        esc = False
        out.append(c)
    return bytes(out)


def script(case):
    """The operations and for each the expected line (or a function that judges it)."""
    import random
    r = random.Random(case['seed'])
    tries, lists, strs = [None] * 8, [[] for _ in range(8)], [None] * 8
    keys = []
    ident = 0
    kinds = {'trie': 'tie', 'list': 'l', 'string': 's', 'function': 'f', 'mixed': 'tlsf'}[case['kind']]
    out = []

    def add(op, want, *args):
        out.append((' '.join([op] + [str(a) if isinstance(a, int) else hx(a) for a in args]), want))
    for _ in range(case['n']):
        k = r.choice(kinds)
        if k in 'tie':
            i = r.randrange(8) if case['kind'] == 'mixed' else r.randrange(2)
            if tries[i] is None or r.random() < .01:
                tries[i] = {}
                add('tnew', '', i)
            t = tries[i]
            x = r.random()
            if x < .0007:
                # every byte after the same beginning
                kk = key(r, keys)
                for c in r.sample(range(1, 256), r.choice([90, 255])):
                    t[kk + bytes([c])] = v = b'%d' % c
                    add('tins', '', i, kk + bytes([c]), v)
                for c in r.sample(range(1, 256), 20):
                    add('tget', hx(t.get(kk + bytes([c]))), i, kk + bytes([c]))
            elif x < .55:
                kk, v = key(r, keys), rbytes(r, length(r) % 60)
                if len(keys) < 300:
                    keys.append(kk)
                t[kk] = v
                add('tins', '', i, kk, v)
            elif x < .9:
                kk = key(r, keys)
                add('tget', hx(t.get(kk)), i, kk)
            elif x < .95:
                add('tsize', str(len(t)), i)
            else:
                add('teach', sorted('%s=%s' % (hx(a), hx(b)) for a, b in t.items()) + [str(len(t))], i)
        elif k == 'l':
            i = r.randrange(8)
            x = r.random()
            if x < .6:
                ident += 1
                e = b'%d:%d' % (r.choice([0, 1, 2, 3, r.randrange(-1000, 1000)]), ident)
                op = r.choice(['lapp', 'lapp', 'lpre'])
                lists[i] = lists[i] + [e] if op == 'lapp' else [e] + lists[i]
                add(op, '', i, e)
            elif x < .7:
                j = r.randrange(8)
                if j != i:
                    lists[i], lists[j] = lists[i] + lists[j], []
                    add('lcat', '', i, j)
            elif x < .8:
                lists[i] = sorted(lists[i], key=lambda e: int(e.split(b':')[0]))
                add('lsort', '', i)
                add('ldump', ' '.join(map(hx, lists[i])), i)
            elif x < .85:
                add('llen', str(len(lists[i])), i)
            elif x < .87:
                lists[i] = []
                add('lnew', '', i)
            else:
                add('ldump', ' '.join(map(hx, lists[i])), i)
        elif k == 's':
            i = r.randrange(8)
            if strs[i] is None or r.random() < .04:
                strs[i] = b''
                add('snew', '', i)
            x = r.random()
            alpha = r.choice([None, b'ab', b'\\a\\', b'%s%n'])
            if x < .25:
                a = rbytes(r, length(r), alpha)
                strs[i] += a
                add('sapp', '', i, a)
            elif x < .35:
                a = rbytes(r, length(r), alpha)
                strs[i] += unescape(a)
                add('sesc', '', i, a)
            elif x < .45:
                a = rbytes(r, length(r), alpha)
                strs[i] += b'<%s|%d>' % (a, len(a))
                add('sfmt', '', i, a)
            elif x < .55:
                a = rbytes(r, length(r), alpha)
                if r.random() < .3:
                    a = a.replace(b'a', b'\0')
                strs[i] += a
                add('slen', '', i, a)
            elif x < .75:
                for _ in range(r.choice([1, 1, 5, 130])):
                    c = r.randrange(1, 256)
                    strs[i] += bytes([c])
                    add('schr', '', i, c)
            elif x < .8:
                j = r.randrange(8)
                if j != i:
                    strs[j] = strs[i]
                    add('sdup', '', i, j)
            else:
                add('sdump', '%d 1 %s' % (len(strs[i]), hx(strs[i])), i)
            if strs[i] is not None and len(strs[i]) > 20000:
                add('sdump', '%d 1 %s' % (len(strs[i]), hx(strs[i])), i)
                strs[i] = b''
                add('snew', '', i)
        else:
            f = r.choice(['split', 'join', 'replace', 'find', 'strip', 'with', 'bool', 'quote', 'ndup', 'utf8'])
            if f == 'split':
                a, c, m = rbytes(r, length(r), r.choice([None, b'a/b', b'/', b'/ab'])), r.choice(b'/a '), r.choice([0, 0, 0, 1, 2, 3, 5])
                p = [] if a == b'' else a.split(bytes([c]), m - 1) if m else a.split(bytes([c]))
                add(f, ' '.join([str(len(p))] + [hx(x) for x in p] + ['=', hx(a)]), a, c, m)
            elif f == 'join':
                sep = rbytes(r, r.choice([0, 1, 2, 9]))
                p = [rbytes(r, length(r) % 40) for _ in range(r.choice([0, 1, 2, 3, 20]))]
                add(f, hx(sep.join(p)), sep, len(p), *p)
            elif f == 'replace':
                a, b, c = rbytes(r, length(r), r.choice([None, b'ab', b'a'])), rbytes(r, r.choice([0, 1, 2, 7]), r.choice([None, b'a'])), 0x61
                add(f, hx(a.replace(b'a', b)), a, b, c)
            elif f == 'find':
                a, c = rbytes(r, length(r), r.choice([None, b'ab\\', b'\\', b'\\b'])), r.choice(b'ab*\\')
                if c == 0x5c:
                    continue
                add(f, str(bc_find(a, c)), a, c)
            elif f == 'strip':
                a = rbytes(r, r.choice([0, 1, 3]), WS) + rbytes(r, length(r), r.choice([None, WS, b'a \t'])) + rbytes(r, r.choice([0, 1, 3]), WS)
                add(f, ' '.join([hx(a.lstrip(WS)), hx(a.rstrip(WS)), hx(a.strip(WS))]), a)
            elif f == 'with':
                a = rbytes(r, length(r), r.choice([None, b'ab']))
                n = r.randrange(len(a) + 1)
                b = r.choice([a[:n], a[n:], a + b'x', rbytes(r, 2, b'ab'), b'', a])
                add(f, '%d %d' % (a.startswith(b), a.endswith(b)), a, b)
            elif f == 'bool':
                a = r.choice([b'1', b'y', b'Y', b'yes', b'yEs', b'true', b'TRUE', b'on', b'On', b'', b'0', b'no', b'false', b'off', b'11', b' 1',
                              b'yess', b'ye', b'onn', b't', b'tru', rbytes(r, 3)])
                add(f, str(int(a.lower() in (b'1', b'y', b'yes', b'true', b'on'))), a)
            elif f == 'quote':
                a = rbytes(r, length(r) % 300, r.choice([None, b"'!", b"'!\\\"$`a b\n"]))
                add(f, ('quote', a), a)
            elif f == 'ndup':
                a, n = rbytes(r, length(r)), r.choice([0, 1, 5, 100000])
                add(f, hx(a[:n]), a, n)
            else:
                s = ''.join(chr(r.choice([0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, r.randrange(1, 0xd800)]))
                            for _ in range(r.choice([1, 1, 2, 5, 30]))).encode()
                x = r.random()
                if x < .2:
                    s = b'\xef\xbb\xbf' + s
                if x < .7:
                    s = bytearray(s)
                    for _ in range(r.choice([1, 1, 2])):
                        y = r.random()
                        p = r.randrange(len(s)) if s else 0
                        if y < .4 and s:
                            s[p] = r.choice([0x80, 0xbf, 0xc0, 0xc1, 0xe0, 0xed, 0xf0, 0xf4, 0xf5, 0xff, r.randrange(256)])
                        elif y < .7 and s:
                            del s[p]
                        else:
                            s.insert(p, r.choice([0x80, 0xc2, 0xe0, 0xf0, 0xed, 0xa0, 0x9f]))
                    s = bytes(s)
                try:
                    s.decode('utf-8')
                    ok = 1
                except UnicodeDecodeError:
                    ok = 0
                add(f, '%d %d' % (ok, 3 if s.startswith(b'\xef\xbb\xbf') else 0), s)
    return out


def run_case(ctx, case):
    res = vlib.Res()
    ops = script(case)
    p = vlib.run([ctx.asan('containers')], stdin=('\n'.join(o for o, _ in ops) + '\n').encode())
    if res.crash(p, 'containers'):
        return res
    lines = p.out.decode().split('\n')[:-1]
    if p.rc != 0 or len(lines) != len(ops):
        res.bad('harness', 'exit %r after %d of %d operations: %r' % (p.rc, len(lines), len(ops), p.err[-300:]))
        return res
    for k, ((op, want), got) in enumerate(zip(ops, lines)):
        res.n += 1
        name = op.split(' ')[0]
        got = got.strip()
        if name == 'teach':
            g = got.split(' ')
            ok = sorted(g[:-1]) + g[-1:] == want
        elif isinstance(want, tuple):
            q = bytes.fromhex(got)
            ok = quoted(None, q) == [want[1].decode('latin1')] if q else False
            # in an interactive shell too
            ok = ok and b'!' not in q.replace(b'\\!', b'')
        else:
            ok = got == want.strip()
        if not ok:
            res.bad(name, 'operation %d, %s\n gave     %s\n expected %s\n(case %r)' % (k, op[:700], got[:700], str(want)[:700], case))
            return res
        res.feats[name] += 1
        if want != '':
            res.sig(name, op, got)
    if res.sample is None:
        res.sample = {'operations': len(ops), 'first': [o[:60] for o, _ in ops[:4]]}
    return res


def shrink(case):
    for n in (1, 2, 5, 10, 20, 50, case['n'] // 2, case['n'] - 1):
        if 0 < n < case['n']:
            yield dict(case, n=n)


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
