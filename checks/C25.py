"""C25: the web server survives any client and any concurrency."""
import mmap
import os
import random
import re
import resource
import select
import socket
import struct
import sys
import threading
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import httpc  # noqa: E402
import vbuild  # noqa: E402
import vlib  # noqa: E402

PID = 'C25'
VARIANTS = ('asan', 'tsan', 'plain')
COUNT = {'quick': 96, 'thorough': 3000}
WORKERS = 8
RULE = ('concurrent hostile and well-behaved clients against tsan and asan servers (each well-formed request must get exactly its '
        'own file), injected accept/thread/short-I/O failures, and a monitor of live heap blocks, descriptors, threads and '
        'address space over rounds of each kind of request; distinct = different (kind of case, -m, client behaviour, answer)')
MIN_DISTINCT = 400
ASSUMPTIONS = ['an occupied server may take some seconds per stalled client before it answers']
NFILES = 24
PROF = {} if os.environ.get('C25_PROF') else None


def content(i):
    """every file is recognisable in each of its 32-byte blocks, and no two are alike"""
    size = [40, 0, 1, 31, 4000, 65536, 65537, 200000, 300, 8192, 1000, 33][i % 12] + (i // 12)
    out = b''.join(b'<%06d-%06d-%014d>' % (i, k, k * 7919 + i) for k in range(size // 31 + 1))
    return out[:size]


def layout(root):
    for i in range(NFILES):
        with open(os.path.join(root, 'f%02d.%s' % (i, ['html', 'css', 'bin'][i % 3])), 'wb') as fp:
            fp.write(content(i))
    for d in ('dir', 'noindex', 'dir2', 'outindex'):
        os.mkdir(os.path.join(root, d))
    for d in ('dir', 'dir2'):
        with open(os.path.join(root, d, 'index.html'), 'wb') as fp:
            fp.write(b'index of ' + d.encode())
    os.symlink('loop', os.path.join(root, 'loop'))
    os.symlink('/etc', os.path.join(root, 'out'))
    os.symlink('/etc/passwd', os.path.join(root, 'outindex', 'index.html'))
    os.mkfifo(os.path.join(root, 'fifo'))


def path_of(i):
    return b'/f%02d.%s' % (i, [b'html', b'css', b'bin'][i % 3])


# well-formed requests and what they must get: (request, status, body or None)
def good(r):
    x = r.random()
    if x < .75:
        i = r.randrange(NFILES)
        p = path_of(i)
        if r.random() < .2:
            p = p.replace(b'f', b'%66', 1)
        if r.random() < .2:
            p += b'?q=%d' % r.randrange(1000)
        return b'GET ' + p + r.choice([b' HTTP/1.0\r\n\r\n', b' HTTP/1.1\r\nHost: a\r\nX: ' + b'y' * r.choice([1, 500, 9000]) + b'\r\n\r\n']), 200, content(i)
    if x < .8:
        return b'GET /dir/ HTTP/1.1\r\n\r\n', 200, b'index of dir'
    if x < .84:
        return b'GET /dir2 HTTP/1.1\r\n\r\n', 302, b''
    if x < .88:
        return b'GET /noindex/ HTTP/1.1\r\n\r\n', 403, None
    if x < .93:
        return b'GET /nothing%d HTTP/1.1\r\n\r\n' % r.randrange(100), 404, None
    if x < .96:
        return b'POST /f00.html HTTP/1.1\r\n\r\n', 405, None
    return b'BAD\r\n\r\n', 400, None


class Failure(Exception):
    pass


def judge(req, status, body, raw):
    a = httpc.parse(raw)
    d = 'request %r\nanswer %r' % (req[:100], raw[:300] if isinstance(raw, bytes) else raw)
    if isinstance(a, str):
        raise Failure('response', a + '\n' + d)
    if a.status != status:
        raise Failure('status', 'status %d, expected %d\n%s' % (a.status, status, d))
    if body is not None and a.body != body:
        m = re.search(rb'<(\d{6})-', a.body)
        own = re.search(rb'<(\d{6})-', body)
        raise Failure('mixed up' if m and (not own or m.group(1) != own.group(1)) else 'body', 'wrong body (%d bytes, expected %d)\n%s' % (len(a.body), len(body), d))
    return a.status


def rst(s):
    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
    s.close()


GARBAGE = [b'\0' * 100 + b'\r\n', b'\r\n\r\n', b'\n', b' \n', b'  \r\n', b'GET\r\n', b'GET /\r\n', b'GET  HTTP/1.0\r\n\r\n', b'GET /' + b'A' * 5000 + b' HTTP/1.0\r\n\r\n',
           b'GET /' + b'../' * 3000 + b' HTTP/1.0\r\n\r\n', b'A' * 70000, b'A' * 300000, b'GET /%00 HTTP/1.0\r\n\r\n', b'GET /% HTTP/1.0\r\n\r\n', b'GET /%f HTTP/1.0\r\n\r\n',
           b'\xff\xfe' * 400 + b'\r\n', b'GET ' + b'%' * 4000 + b' HTTP/1.0\r\n\r\n', b'GET /loop HTTP/1.0\r\n\r\n', b'GET /fifo HTTP/1.0\r\n\r\n', b'GET /outindex/ HTTP/1.0\r\n\r\n',
           b'GET /out/passwd HTTP/1.0\r\n\r\n', b'GET /%n%s%n%x HTTP/1.0\r\n\r\n', b'%s%n %s%n %s%n\r\n', b'GET /dir?' + b'x' * 3000 + b' HTTP/1.0\r\n\r\n', b'GET /f00.html\tHTTP/1.0\r\n\r\n',
           b'GET ? HTTP/1.0\r\n\r\n', b'GET ' + b'/' * 4090 + b' HTTP/1.0\r\n\r\n', b'GET /' + b'a' * 255 + b'/' + b'b' * 256 + b' HTTP/1.0\r\n\r\n', b'POST / HTTP/1.0\r\nContent-Length: 99999\r\n\r\n' + b'z' * 99999]


def client(srv, seed, nops, allow, log, fails):
    r = random.Random(seed)
    try:
        for _ in range(nops):
            op = r.choice(allow)
            t0 = time.time()
            req, status, body = good(r)
            try:
                if op == 'good':
                    s = judge(req, status, body, srv.raw(req))
                elif op == 'pieces':
                    k = sorted(r.randrange(len(req)) for _ in range(r.choice([1, 3, 8])))
                    s = judge(req, status, body, srv.raw(req, chunks=[req[a:b] for a, b in zip([0] + k, k + [len(req)]) if a < b]))
                elif op == 'half':
                    s = judge(req, status, body, srv.raw(req, shut=True))
                elif op == 'slowread':
                    c = srv.connect()
                    # (a tiny window would only wait for the kernel's timers)
                    c.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 2048 if len(body or b'') < 2000 else 65536)
                    c.sendall(req)
                    out = b''
                    while True:
                        b = c.recv(r.choice([100, 5000, 60000]))
                        if not b:
                            break
                        out += b
                        if r.random() < .3:
                            time.sleep(.003)
                    c.close()
                    s = judge(req, status, body, out)
                elif op == 'many':
                    # all connected before any sends: served in the order the server likes
                    cs = []
                    for _ in range(r.choice([2, 4, 8])):
                        cs.append((srv.connect(), good(r)))
                    r.shuffle(cs)
                    for c, g in cs:
                        c.sendall(g[0])
                    r.shuffle(cs)
                    for c, g in cs:
                        out = b''
                        while True:
                            b = c.recv(65536)
                            if not b:
                                break
                            out += b
                        c.close()
                        judge(g[0], g[1], g[2], out)
                    s = 'many'
                elif op == 'garbage':
                    g = r.choice(GARBAGE)
                    if r.random() < .2:
                        g = bytes(r.randrange(256) for _ in range(r.choice([1, 10, 300])))
                    raw = srv.raw(g, shut=r.random() < .8 or (b'\n' not in g and b'\r' not in g and b'\0' not in g))
                    if isinstance(raw, bytes) and b'root:' in raw:
                        raise Failure('leak', repr(g))
                    s = raw[:12] if isinstance(raw, bytes) else 'reset'
                elif op == 'vanish':
                    c = srv.connect()
                    c.sendall(req[:r.randrange(len(req) + 1)])
                    if r.random() < .5:
                        rst(c)
                    else:
                        c.close()
                    s = 'gone'
                elif op == 'readsome':
                    c = srv.connect()
                    c.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 2048)
                    c.sendall(b'GET ' + path_of(r.choice([5, 6, 7, 19])) + b' HTTP/1.0\r\n\r\n')
                    c.recv(r.choice([1, 100, 5000]))
                    (rst if r.random() < .6 else socket.socket.close)(c)
                    s = 'gone'
                elif op == 'pause':
                    c = srv.connect()
                    c.sendall(req[:r.choice([0, 1, 3])])
                    time.sleep(r.choice([.01, .05, .2]))
                    c.close()
                    s = 'gone'
                elif op == 'idle':
                    c = srv.connect()
                    c.close()
                    s = 'gone'
            except OSError as e:
                raise Failure('connection', '%s: %s\nrequest %r' % (op, e, req[:100]))
            log.append((op, s))
            if PROF is not None:
                PROF.setdefault(op, []).append(time.time() - t0)
    except Failure as e:
        fails.append((e.args[0], e.args[1]))
    except Exception as e:
        fails.append(('harness', repr(e)))


ALL = ['good', 'good', 'good', 'pieces', 'half', 'slowread', 'many', 'garbage', 'garbage', 'vanish', 'readsome', 'pause', 'idle']


def gen(rng, i, tier):
    k = i % 12
    kind = 'tsan' if k < 4 else 'asan' if k < 7 else 'faults' if k < 9 else 'resources' if k < 11 else ['stalled', 'emfile', 'rapid', 'stalledwrite'][(i // 12 + (0 if i % 24 < 12 else 2)) % 4]
    return {'kind': kind, 'seed': rng.randrange(1 << 40)}


def concurrent(ctx, res, r, srv, m, clients, nops, allow, kind):
    fails, log = [], []
    ts = [threading.Thread(target=client, args=(srv, r.random(), nops, allow, log, fails)) for _ in range(clients)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    res.n += len(log)
    for op, s in log:
        res.sig(kind, m, op, s)
        res.feats['%s: %s' % (kind, op)] += 1
    fails.sort(key=lambda f: f[0] == 'connection')
    return fails


def afterwards(srv, n, timeout=60):
    """the server still answers well-formed requests"""
    for i in range(n):
        req = b'GET ' + path_of(i % NFILES) + b' HTTP/1.0\r\n\r\n'
        judge(req, 200, content(i % NFILES), srv.raw(req, timeout=timeout))


def run_case(ctx, case):
    r = random.Random(case['seed'])
    res = vlib.Res()
    kind = case['kind']
    root = ctx.fresh('root')
    layout(root)
    if kind == 'resources':
        resources(ctx, res, r, root)
        return res
    srv = None
    try:
        m = r.choice([1, 2, 3, 5, 20])
        if kind in ('tsan', 'asan'):
            exe = getattr(ctx, kind)('blogc-runserver')
            host = '::1' if r.random() < .15 and has6() else '127.0.0.1'
            srv = httpc.Server(exe, root, ctx.dir, args=['-m', str(m)], host=host)
            # with few threads, connections that wait for each other's turn would stall
            allow = ALL if m >= 20 else [a for a in ALL if a != 'many'] if m >= 3 else [a for a in ALL if a not in ('many', 'pause')]
            n = r.choice([2, 4, 8, 16])
            fails = concurrent(ctx, res, r, srv, m, n, 120 // n + 6, allow, kind)
        elif kind == 'faults':
            w = os.path.join(ctx.dir, 'hw')
            with open(w, 'wb') as fp:
                fp.write(b'\0' * 4096)
            f = r.choice(['short:1', 'short:2', 'short:3', 'accept:3:24', 'accept:5:103', 'accept:4:4', 'accept:7:12', 'thread:3', 'thread:5', 'accept:5:11 short:2', 'thread:4 short:3'])
            exe = r.choice([ctx.asan, ctx.plain])('blogc-runserver')
            plain = exe == ctx.plain('blogc-runserver')
            env = vlib.base_env(HEAPWATCH=w if plain else None, SRVFAULT=f)
            so = vbuild.preload('heapwatch', ctx.b['plain']) if plain else vbuild.preload('srvfault', ctx.b['plain'])
            srv = httpc.Server(exe, root, ctx.dir, args=['-m', str(m)], env=env, preload=so)
            fails, refused = [], 0
            for _ in range(60):
                req, status, body = good(r)
                raw = srv.raw(req)
                res.n += 1
                # what the injected fault hits is refused; what is served is right
                broken = not isinstance(raw, bytes) or raw == b'' or raw.startswith(b'HTTP/1.0 503 ')
                res.sig(kind, f, m, status, broken)
                if broken and not f.startswith('short'):
                    refused += 1
                    if not srv.alive():
                        break
                    continue
                try:
                    judge(req, status, body, raw)
                except Failure as e:
                    fails.append(e.args)
                    break
            if refused > 32:
                fails.append(('refused', '%d of 60 requests refused with %s' % (refused, f)))
            res.feats['faults: %s' % f] += 1
            res.feats['faults: refused requests'] += refused
            if fails:
                fails = [(fails[0][0], 'faults %s\n%s' % (f, fails[0][1]))]
        elif kind in ('stalled', 'stalledwrite'):
            # clients that never finish: later ones are still served
            m = r.choice([1, 2])
            if kind == 'stalled':
                srv = httpc.Server(ctx.asan('blogc-runserver'), root, ctx.dir, args=['-m', str(m)])
            else:
                with open(os.path.join(root, 'big.bin'), 'wb') as fp:
                    fp.write(os.urandom(1 << 20) * 12)        # more than the kernel takes off the server's hands
                srv = httpc.Server(ctx.plain('blogc-runserver'), root, ctx.dir, args=['-m', str(m)])
            cs = []
            for _ in range(m):
                c = srv.connect()
                c.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 2048)
                c.sendall(r.choice([b'', b'G', b'GET /f07.css HTTP/1.0\r\n\r\n', b'GET /']) if kind == 'stalled' else b'GET /big.bin HTTP/1.0\r\n\r\n')
                cs.append(c)
            t0 = time.time()
            fails = []
            try:
                afterwards(srv, 3, timeout=60)
            except Failure as e:
                fails = [(e.args[0], 'after stalled clients (%.0f s)\n%s' % (time.time() - t0, e.args[1]))]
            res.n += 3
            res.sig(kind, m)
            res.feats['%s clients' % kind] += m
            for c in cs:
                c.close()
        elif kind == 'emfile':
            srv = httpc.Server(ctx.plain('blogc-runserver'), root, ctx.dir, args=['-m', '40'])
            resource.prlimit(srv.proc.pid, resource.RLIMIT_NOFILE, (24, 24))
            cs = [srv.connect() for _ in range(40)]
            time.sleep(.3)
            for c in cs:
                c.close()
            time.sleep(.3)
            fails = []
            try:
                afterwards(srv, 5)
            except Failure as e:
                fails = [(e.args[0], 'after running out of descriptors\n' + e.args[1])]
            res.n += 5
            res.sig(kind)
            res.feats['out of descriptors'] += 1
        else:
            srv = httpc.Server(ctx.tsan('blogc-runserver'), root, ctx.dir, args=['-m', '20'])
            fails = concurrent(ctx, res, r, srv, 20, 24, 20, ['good', 'vanish', 'idle'], kind)
        if not fails:
            t = srv.trouble()
            if not t:
                try:
                    time.sleep(.01)
                    if kind != 'faults':
                        afterwards(srv, 4)
                except Failure as e:
                    fails = [('afterwards: ' + e.args[0], e.args[1])]
        t = srv.trouble()
        if t:
            res.bad('crash: ' + t[0], '%s -m %d\n%s\n%s' % (kind, m, t[1], fails[:1]))
        elif fails:
            if fails[0][0] == 'harness':
                raise RuntimeError(fails[0][1])
            res.bad(fails[0][0], '%s, -m %d\n%s' % (kind, m, fails[0][1]))
        if res.sample is None:
            res.sample = {'kind': kind, 'threads': m, 'requests': res.n}
    finally:
        if srv:
            srv.stop()
    return res


_six = []


def has6():
    if not _six:
        try:
            s = socket.socket(socket.AF_INET6)
            s.bind(('::1', 0))
            s.close()
            _six.append(True)
        except OSError:
            _six.append(False)
    return _six[0]


KINDS = {
    'file': b'GET /f04.css HTTP/1.0\r\n\r\n', 'large file': b'GET /f07.css HTTP/1.0\r\n\r\n', 'empty file': b'GET /f01.css HTTP/1.0\r\n\r\n',
    'encoded and query': b'GET /%66%304.css?a=b&c=%20 HTTP/1.1\r\nHost: x\r\n\r\n', 'index': b'GET /dir/ HTTP/1.0\r\n\r\n', 'redirect': b'GET /dir HTTP/1.0\r\n\r\n',
    'redirect with query': b'GET //dir?x HTTP/1.0\r\n\r\n', '403': b'GET /noindex/ HTTP/1.0\r\n\r\n', 'fifo': b'GET /fifo HTTP/1.0\r\n\r\n', '404': b'GET /nothing HTTP/1.0\r\n\r\n',
    '404 notdir': b'GET /f00.html/x HTTP/1.0\r\n\r\n', 'outside': b'GET /../../../../etc/passwd HTTP/1.0\r\n\r\n', 'outside link': b'GET /out/passwd HTTP/1.0\r\n\r\n',
    'outside index': b'GET /outindex/ HTTP/1.0\r\n\r\n', 'outside index without slash': b'GET /outindex HTTP/1.0\r\n\r\n', 'loop': b'GET /loop HTTP/1.0\r\n\r\n',
    'NUL': b'GET /%00 HTTP/1.0\r\n\r\n', '400': b'GET\r\n\r\n', '400 empty pieces': b'  \r\n\r\n', '405': b'PUT /f00.html HTTP/1.0\r\n\r\n', 'empty line': b'\r\n',
    'no path': b'GET  HTTP/1.0\r\n\r\n', 'only query': b'GET ?x HTTP/1.0\r\n\r\n', 'too long name': b'GET /' + b'a' * 300 + b' HTTP/1.0\r\n\r\n', 'long line': b'A' * 70000, 'bad escape': b'GET /%zz%f HTTP/1.0\r\n\r\n',
    'post body': b'POST / HTTP/1.0\r\n\r\n' + b'x' * 2000, 'dot': b'GET /. HTTP/1.0\r\n\r\n', 'root': b'GET / HTTP/1.0\r\n\r\n',
    'close at once': 'idle', 'partial and close': 'partial', 'reset': 'reset', 'reset while reading': 'resetread', 'half closed': 'half', 'at once': 'burst',
}
ROUND = 50


def one(srv, what):
    if isinstance(what, bytes):
        srv.raw(what, shut=not what.endswith(b'\n'))
        return
    if what == 'half':
        srv.raw(b'GET /f04.css HTTP/1.0\r\n\r\n', shut=True)
        return
    if what == 'burst':
        cs = [srv.connect() for _ in range(4)]
        for c in cs:
            c.sendall(b'GET /f04.css HTTP/1.0\r\n\r\n')
        for c in cs:
            while c.recv(65536):
                pass
            c.close()
        return
    c = srv.connect()
    if what == 'partial':
        c.sendall(b'GET /f0')
    elif what == 'reset':
        c.sendall(b'GET /f04.css HTTP/1.0\r\n\r\n')
    elif what == 'resetread':
        c.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 2048)
        c.sendall(b'GET /f07.css HTTP/1.0\r\n\r\n')
        try:
            c.recv(10)
        except OSError:
            pass
    (rst if what.startswith('reset') else socket.socket.close)(c)


def resources(ctx, res, r, root):
    w = os.path.join(ctx.dir, 'hw')
    with open(w, 'wb') as fp:
        fp.write(b'\0' * 4096)
    so = vbuild.preload('heapwatch', ctx.b['plain'])
    m = r.choice([1, 2, 4])
    srv = httpc.Server(ctx.plain('blogc-runserver'), root, ctx.dir, args=['-m', str(m)], env=vlib.base_env(HEAPWATCH=w), preload=so)
    try:
        fp = open(w, 'r+b')
        mm = mmap.mmap(fp.fileno(), 4096)

        def now():
            b = struct.unpack('5q', mm[:40])
            d = '/proc/%d/' % srv.proc.pid
            st = open(d + 'status').read()
            vm = int(re.search(r'VmSize:\s+(\d+)', st).group(1)) // 1024
            return [b[0], b[1] // 16, len(os.listdir(d + 'fd')), len(os.listdir(d + 'task')), vm, b[2], b[3]]

        def settled():
            """the smallest of what is seen until nothing changes"""
            last, same, end = None, 0, time.time() + 4
            while time.time() < end and same < 3:
                x = now()
                same = same + 1 if last and x[:4] == last[:4] and x[3] == 1 else 0
                last = x
                time.sleep(.004)
            return last
        names = sorted(KINDS)
        r.shuffle(names)
        for name in names[:18]:
            what = KINDS[name]
            k = ROUND // 2 if what == 'burst' else ROUND // 4 if name == 'long line' else ROUND
            seen = []
            t0 = time.time()
            for rnd in range(4):
                if rnd:
                    for _ in range(k):
                        one(srv, what)
                else:
                    for _ in range(m * 2 + 2):
                        one(srv, what)
                seen.append(settled())
            if PROF is not None:
                PROF.setdefault('resources ' + name, []).append(time.time() - t0)
            t = srv.trouble()
            if t:
                res.bad('crash: ' + t[0], '%s\n%s' % (name, t[1]))
                return
            res.n += 4
            d = [[b - a for a, b in zip(seen[i], seen[i + 1])] for i in (1, 2)]
            for col, label, limit in ((0, 'heap blocks', k // 2), (2, 'descriptors', k // 2), (3, 'threads', k // 2), (4, 'MB of address space', k)):
                if all(x[col] >= limit for x in d):
                    res.bad('leak: ' + label, '%s grow by %r in two rounds of %d requests of kind %r (-m %d)\n%r' % (label, [x[col] for x in d], k, name, m, seen))
                    return
            res.sig('resources', m, name)
            res.feats['resources: rounds of ' + name] += 3
            res.feats['resources: allocations seen'] += seen[-1][5] - seen[0][5]
            res.feats['resources: threads seen'] += seen[-1][6] - seen[0][6]
        if res.feats['resources: allocations seen'] < 1000:
            raise RuntimeError('the allocation monitor saw nothing')
    finally:
        srv.stop()


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
