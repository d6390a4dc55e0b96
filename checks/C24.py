"""C24: the web server never serves anything outside its document root."""
import os
import random
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import httpc  # noqa: E402
import vlib  # noqa: E402

PID = 'C24'
COUNT = {'quick': 1600, 'thorough': 20000}
RULE = ('a document root with links of every kind next to siblings and parents full of marked files; requests generated from a '
        'grammar of escapes; no response may hold a marker, a redirect or a 200 for what resolves outside (resolution by an '
        'independent model); distinct = different request and outcome')
MIN_DISTINCT = 5000
ASSUMPTIONS = ['whether an outside file exists may show as 403 or 404 only']
MARK = b'SECRET'


def gen(rng, i, tier):
    return {'seed': rng.randrange(1 << 40)}


ROOTS = ['root', 'root', 'r', 'www.site', 'ro ot', 'röt']


def build(ctx, r):
    """w/outer/inner/<root>: the scratch directory keeps everything that '..' can reach in a few steps"""
    top = ctx.fresh('w')
    name = r.choice(ROOTS)
    base = os.path.join(top, 'outer', 'inner')
    root = os.path.join(base, name)
    os.makedirs(root)
    n = [0]

    def secret(p):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        n[0] += 1
        with open(p, 'wb') as fp:
            fp.write(MARK + b' %d ' % n[0])
    for d in (base + '/' + name + '2', base + '/' + name + '-secret', base + '/' + name + '.d', base + '/' + name[:-1] + '_', top + '/outer', top, base, base + '/other', top + '/outer/' + name, base + '/' + name + name):
        for f in ('secret', 'index.html', 'a.html', 'sub/index.html', 'noindex/x'):
            secret(os.path.join(d, f))
    secret(base + '/' + name + '.html')
    inside = {}

    def put(p, data):
        q = os.path.join(root, p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, 'wb') as fp:
            fp.write(data)
        inside[p] = data
    for p in ('a.html', 'index.html', 'sub/index.html', 'sub/a.html', 'sub/deep/x.txt', '..a/index.html', '.../index.html', '%2e%2e/index.html', 'noindex/x', 'a%2fb', 'sp ace/index.html', '..\\..\\secret'):
        put(p, b'inside ' + p.encode())
    if r.random() < .3:
        os.unlink(os.path.join(root, 'index.html'))
        del inside['index.html']
    links = {}

    def link(p, t):
        q = os.path.join(root, p)
        if not os.path.lexists(q):
            os.symlink(t, q)
            links[p] = t
    outs = [base + '/' + name + '2', '../' + name + '2', '../' + name + '-secret', '..', '../..', base, top, '../other', '../' + name + '.d', '../' + name + '/../other', base + '/' + name + '/..', '../other/sub', '../other/noindex', '../' + name + name]
    for k in range(r.choice([2, 4, 8])):
        t = r.choice(outs)
        x = r.random()
        if x < .45:
            link('ln%d' % k, t)
        elif x < .7:
            link('lf%d.html' % k, t + '/' + r.choice(['secret', 'index.html', 'a.html']))
        elif x < .85:
            d = 'ix%d' % k
            os.makedirs(os.path.join(root, d), exist_ok=True)
            u = t if t.startswith('/') else '../' + t
            link(d + '/' + r.choice(['index.html', 'index.htm', 'index.xml', 'index.xhtml', 'index.txt', 'index.json']), r.choice([u + '/secret', u + '/index.html', u + '/a.html', base + '/' + name + '.html', base + '/other/secret']))
        else:
            link('chain%d' % k, 'ln%d' % (k - 1))
    link('in', 'sub')
    link('loop', 'loop')
    link('inabs', root + '/sub')
    link('sub/up', '..')
    link('back', '../' + name + '/sub')
    return top, base, root, name, links


SEG = ['..', '%2e%2e', '%2E.', '.%2e', '..%2f', '%2e%2e%2f', '..%5c', '..\\', '%252e%252e', '%c0%ae%c0%ae', '..;', '..%00', '.', '%2e', '', '..a', '...', '%2f', '%2F..', '..%2f..', '....//', '. .', '%20..', '..%20', '..?', '..#', '%u002e', '%2e%2', '%', '..%01']


def target(r, base, name, links):
    segs = []
    depth = 0
    for _ in range(r.choice([1, 2, 3, 4, 6, 9])):
        x = r.random()
        if x < .45:
            s = r.choice(['..', '..', '..', '%2e%2e', '%2E%2E', '.%2e', '..%2f..'] if r.random() < .6 else SEG)
            depth += s.count('..') + s.lower().count('%2e')
            if depth > 12:
                continue
            segs.append(s)
        elif x < .6:
            segs.append(r.choice(list(links) + ['in', 'sub', 'sub/up', 'back']))
        elif x < .75:
            segs.append(r.choice([name, name + '2', name + '-secret', 'other', 'outer', 'inner', name + name, name + '.d']))
        elif x < .9:
            segs.append(r.choice(['sub', 'noindex', 'sub/deep', '..a', '...', 'sp%20ace', 'nothing']))
        else:
            segs.append(r.choice(['secret', 'index.html', 'a.html', 'sub/index.html']))
    if r.random() < .7:
        segs.append(r.choice(['secret', 'index.html', 'a.html', '', 'noindex', 'sub', 'sub/', name + '2', name + '2/', 'other', name + '.html']))
    sep = lambda: r.choice(['/', '/', '/', '/', '//', '/./', '%2f', '/%2e/'])
    t = r.choice(['/', '/', '/', '/', '', '//', '///', '%2f', base + '/', '/' + base + '/', 'http://localhost/', 'file://', '\\', '//evil.example/', '/%2f/evil.example/', '/./', '*'])
    if r.random() < .08:
        t = r.choice(['', '/', '//']) + r.choice([base + '/other/secret', base + '/' + name + '/../other/a.html', '/etc/passwd', base + '/' + name + '2', base])
        segs = []
    for k, s in enumerate(segs):
        t += (sep() if k else '') + s
    if r.random() < .1:
        t = ''.join('%%%02x' % ord(c) if ord(c) < 128 and c not in '%?#' and r.random() < .5 else c for c in t)
    if r.random() < .15:
        t += r.choice(['?', '?x', '?/../../secret', '%3f', '#', '%00', '%00.html', '/.', '/..', '/'])
    t = t.replace(' ', r.choice(['%20', '%20']))
    return t.encode('utf-8')


def aimed(r, base, name, links):
    """a request that would succeed if there was no containment"""
    deep = r.choice(['', '', 'sub/', 'sub/deep/', 'noindex/', 'in/', 'back/'])
    up = {'': 1, 'sub/': 2, 'sub/deep/': 3, 'noindex/': 2, 'in/': 2, 'back/': 2}[deep]
    x = r.random()
    if x < .35 and links:
        t = r.choice(sorted(links))
        if t.startswith('ix') and r.random() < .7:
            t = t.split('/')[0] + r.choice(['', '/', '/', '/', '/.', '/index.html'])
        t += r.choice(['', '', '/', '/secret', '/index.html', '/a.html', '/sub', '/sub/', '/noindex/x', '/other/secret', '/../' + name + '2/secret', '/' + name + '2', '/inner/other/a.html'])
    elif x < .7:
        t = deep + '../' * up + r.choice([name + '2', name + '-secret', name + '.d', 'other', name + name, name[:-1] + '_', '']) + r.choice(['', '/', '/secret', '/a.html', '/index.html', '/sub', '/sub/', '/noindex/x'])
    elif x < .85:
        t = deep + '../' * (up + r.choice([1, 2])) + r.choice(['secret', '', 'a.html', 'sub/', 'sub', 'outer', 'outer/', 'outer/' + name, name, name + '/', name + '/secret', 'inner/other'])
    else:
        t = deep + '../' * up + name + '.html'
    enc = r.random()
    if enc < .25:
        t = t.replace('..', r.choice(['%2e%2e', '.%2e', '%2E.', '%2e%2E']))
    if enc < .1 or enc > .85:
        t = t.replace('/', r.choice(['%2f', '//', '/./', '%2F', '/%2e/']))
    if .4 < enc < .5:
        t = ''.join('%%%02x' % b for b in t.encode())
    t = r.choice(['/', '/', '/', '', '//', '%2f', '/./']) + t
    return ''.join('%%%02x' % b if b >= 128 or b == 32 else chr(b) for b in t.encode()).encode()


def decode(path):
    return re.sub(rb'%([0-9a-fA-F]{2})', lambda m: bytes([int(m.group(1), 16)]), path)


def run_case(ctx, case):
    r = random.Random(case['seed'])
    res = vlib.Res()
    top, base, root, name, links = build(ctx, r)
    doc = r.choice([root, root, root + '/', name, './' + name, '../inner/' + name, 'dlink', name + '/.', name + '/sub/..'])
    os.symlink(name, os.path.join(base, 'dlink'))
    srv = httpc.Server(ctx.asan('blogc-runserver'), doc, ctx.dir, args=['-m', '3'], cwd=base)
    real_root = os.path.realpath(root)
    try:
        for _ in range(90):
            t = (aimed if r.random() < .4 else target)(r, base, name, links)
            req = b'GET ' + t + r.choice([b' HTTP/1.0\r\n\r\n', b' HTTP/1.1\r\nHost: ../../\r\n\r\n'])
            raw = srv.raw(req)
            a = httpc.parse(raw)
            res.n += 1
            p = decode(t.split(b'?')[0])
            real = None
            if b'\0' not in p:
                try:
                    os.stat(os.path.join(os.fsencode(real_root), b'./' + p))    # realpath() forgives "file/" and "file/.."
                    real = os.path.realpath(os.path.join(os.fsencode(real_root), b'./' + p), strict=True)
                except OSError:
                    real = None
            inside = real is not None and (real == os.fsencode(real_root) or real.startswith(os.fsencode(real_root) + b'/'))
            d = 'document root %r (inside %r), request target %r, resolves to %r\nlinks %r\nanswer %r' % (doc, base, t, real, links, raw[:300] if isinstance(raw, bytes) else raw)
            if isinstance(raw, bytes) and MARK in raw:
                res.bad('leak', 'bytes from outside of the document root\n' + d)
                return res
            if isinstance(a, str):
                t = srv.trouble()
                if t:
                    res.bad('crash: ' + t[0], t[1] + '\n' + d)
                else:
                    res.bad('response', a + '\n' + d)
                return res
            if a.status in (200, 301, 302, 303, 307, 308):
                if not inside:
                    res.bad('escape', 'status %d for something outside\n%s' % (a.status, d))
                    return res
                final = real
                if a.status != 200:
                    loc = a.headers.get('location', b'')
                    q = os.path.realpath(os.fsencode(real_root) + b'/./' + decode(loc.split(b'?')[0]))
                    if not os.path.isdir(real) or not loc.startswith(b'/') or loc.startswith((b'//', b'/\\')) or not (q + b'/').startswith(os.fsencode(real_root) + b'/'):
                        res.bad('redirect', 'Location %r\n%s' % (loc, d))
                        return res
            elif a.status not in (400, 403, 404):
                if not (a.status == 500 and b'loop' in p):
                    res.bad('status', 'status %d\n%s' % (a.status, d))
                    return res
            else:
                # things inside stay reachable
                if inside and os.path.isfile(real):
                    res.bad('inside', 'status %d for a file inside\n%s' % (a.status, d))
                    return res
                if real is not None and not inside and os.path.basename(real) not in (b'',) and len(os.path.basename(real)) > 4 and os.path.basename(real) in a.body:
                    res.bad('leak', 'the answer names the outside target\n' + d)
                    return res
            kind = 'inside' if inside else 'outside' if real is not None else 'nowhere'
            res.sig(t, kind, a.status)
            res.feats['%s: %d' % (kind, a.status)] += 1
            if res.sample is None and kind == 'outside':
                res.sample = {'target': t.decode('latin-1'), 'status': a.status}
        t = srv.trouble()
        if t:
            res.bad('crash: ' + t[0], t[1])
    finally:
        srv.stop()
    return res


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
