"""C23: the web server returns exactly the requested file."""
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import httpc  # noqa: E402
import vlib  # noqa: E402

PID = 'C23'
COUNT = {'quick': 320, 'thorough': 20000}
RULE = ('document roots with generated names, contents, indexes, links; for every file and directory several spellings of '
        'the request (percent-encoding, query, dot segments, pieces, headers) to the running server; status, type, length and '
        'bytes compared with the tree; distinct = different request kind, name, outcome')
MIN_DISTINCT = 4000
ASSUMPTIONS = ['the index of a directory is the first of index.html, .htm, .shtml, .xml, .txt, .xhtml', 'an empty request line and upper case extensions are left open']
TYPES = dict(x.split('=') for x in '''
html=text/html htm=text/html shtml=text/html xml=text/xml txt=text/plain xhtml=application/xhtml+xml css=text/css gif=image/gif jpeg=image/jpeg
jpg=image/jpeg js=application/javascript atom=application/atom+xml rss=application/rss+xml mml=text/mathml png=image/png tif=image/tiff tiff=image/tiff
ico=image/x-icon bmp=image/x-ms-bmp svg=image/svg+xml svgz=image/svg+xml webp=image/webp woff=application/font-woff jar=application/java-archive
json=application/json doc=application/msword pdf=application/pdf ps=application/postscript rtf=application/rtf xls=application/vnd.ms-excel
eot=application/vnd.ms-fontobject 7z=application/x-7z-compressed rpm=application/x-redhat-package-manager swf=application/x-shockwave-flash
pem=application/x-x509-ca-cert zip=application/zip bin=application/octet-stream iso=application/octet-stream deb=application/octet-stream
docx=application/vnd.openxmlformats-officedocument.wordprocessingml.document mid=audio/midi mp3=audio/mpeg ogg=audio/ogg m4a=audio/x-m4a
3gp=video/3gpp ts=video/mp2t mp4=video/mp4 mpeg=video/mpeg mov=video/quicktime webm=video/webm flv=video/x-flv wmv=video/x-ms-wmv avi=video/x-msvideo
wml=text/vnd.wap.wml htc=text/x-component wbmp=image/vnd.wap.wbmp jng=image/x-jng hqx=application/mac-binhex40 m3u8=application/vnd.apple.mpegurl
ppt=application/vnd.ms-powerpoint wmlc=application/vnd.wap.wmlc kml=application/vnd.google-earth.kml+xml kmz=application/vnd.google-earth.kmz
cco=application/x-cocoa jardiff=application/x-java-archive-diff jnlp=application/x-java-jnlp-file run=application/x-makeself pl=application/x-perl
prc=application/x-pilot rar=application/x-rar-compressed sea=application/x-sea sit=application/x-stuffit tcl=application/x-tcl xpi=application/x-xpinstall
xspf=application/xspf+xml xlsx=application/vnd.openxmlformats-officedocument.spreadsheetml.sheet
pptx=application/vnd.openxmlformats-officedocument.presentationml.presentation ra=audio/x-realaudio m4v=video/x-m4v mng=video/x-mng asf=video/x-ms-asf
jad=text/vnd.sun.j2me.app-descriptor'''.split())
INDEX = ['index.html', 'index.htm', 'index.shtml', 'index.xml', 'index.txt', 'index.xhtml']
DEF = b'application/octet-stream'
STEMS = ['a', 'page', 'sp ace', 'ü', '日本', '100%', '%41', '%2e', 'a+b', 'q?x', 'h#x', 'am&p', "q'", '"', '\\', 'back\\slash', '<b>', 'new\nline', 'ret\rx', 'tab\t', '.hidden', '..x', '...', 'x' * 200, '~', ':', ';', '=', '@', '\x01', '%', '%%',
         '%zz', '%4', 'index', 'http:', '[x]', '\udcff', '%ff', '%25']


def gen(rng, i, tier):
    return {'seed': rng.randrange(1 << 40)}


def worker_init(ctx):
    ctx.root = ctx.fresh('site')
    w = getattr(ctx, 'wid', 0)
    spell = [ctx.root, ctx.root + '/', 'site', './site/', 'lnk', ctx.root, '../' + os.path.basename(ctx.dir) + '/site', 'site'][w % 8]
    if not os.path.lexists(os.path.join(ctx.dir, 'lnk')):
        os.symlink('site', os.path.join(ctx.dir, 'lnk'))
    host = '127.0.0.1'
    ctx.srv = httpc.Server(ctx.asan('blogc-runserver'), spell, ctx.dir, args=['-m', str([1, 2, 20, 5][w % 4])], cwd=ctx.dir, host=host)


def worker_exit(ctx):
    ctx.srv.stop()


def pct(r, name, p):
    """percent-encode, at least what must be"""
    out = ''
    b = os.fsencode(name)
    for k, c in enumerate(b):
        ch = chr(c)
        must = c <= 32 or c == 127 or ch in '?#' or c > 127 and r.random() < .5
        if ch == '%':
            nxt = b[k + 1:k + 3].decode('latin-1')
            # a literal '%' may only be followed by something that is no escape
            must = len(nxt) == 2 and all(x in '0123456789abcdefABCDEF' for x in nxt) or r.random() < .5 or nxt[:1] == '%' or k + 2 >= len(b)
        if ch == '#':
            must = r.random() < .5
        if must or r.random() < p:
            out += '%' + ('%02x' if r.random() < .5 else '%02X') % c
        else:
            out += ch
    return out.encode('latin-1')


def ext_type(rel):
    base = rel.rsplit('/', 1)[-1]
    k = base.rfind('.')
    if k < 0:
        return [DEF]
    if k == 0:
        return [DEF, TYPES.get(base[1:], '').encode() or DEF]
    e = base[k + 1:]
    if '\\' in e:
        return [DEF]
    if e.lower() != e:
        return [DEF, TYPES.get(e.lower(), '').encode() or DEF]
    return [TYPES.get(e, '').encode() or DEF]


class Site:
    def __init__(self, r, root):
        self.files, self.dirs, self.other, self.links = {}, {''}, {}, set()
        for _ in range(r.choice([3, 8, 15])):
            parts = [r.choice(STEMS) + r.choice(['', '', str(r.randrange(5))]) for _ in range(r.choice([1, 1, 2, 3, 5]))]
            x = r.random()
            if x < .06:
                parts = [r.choice(INDEX)]
            elif x < .3:
                parts.append(r.choice(INDEX))
            elif x < .8:
                parts[-1] += '.' + r.choice(list(TYPES) + ['xyz', 'tar.gz', '', 'HTML', 'c', 'htmlx', 'tm'])
            p = '/'.join(parts)
            if '..' in p.split('/') or '.' in p.split('/') or any(len(os.fsencode(q)) > 250 for q in p.split('/')):
                continue
            anc = ['/'.join(p.split('/')[:k]) for k in range(1, len(p.split('/')))]
            if p in self.dirs or p in self.files or any(a in self.files for a in anc):
                continue
            data = r.choice([b'', b'x', b'text\r\n\r\nHTTP/1.0 200 OK\r\n', bytes(range(256)) * 5, os.urandom(1) * 0 + b'z' * 65536, b'y' * 65535, b'w' * 131073, b'%s', b'\0', b'big' * r.choice([60000, 60000, 400000]) if r.random() < .15 else b'small', p.encode('utf-8', 'surrogateescape')])
            self.files[p] = data
            self.dirs |= set(anc)
        for d in sorted(self.dirs, key=len):
            if d:
                os.mkdir(os.path.join(root, d))
        for p, data in self.files.items():
            with open(os.path.join(root, p), 'wb') as fp:
                fp.write(data)
        # empty and index-less directories, links, things that are no files
        for d in ('empty', 'noindex'):
            if d not in self.dirs and d not in self.files:
                os.mkdir(os.path.join(root, d))
                self.dirs.add(d)
        if 'odd' not in self.dirs and 'odd' not in self.files:
            os.mkfifo(os.path.join(root, 'odd'))
            self.other['odd'] = 403
        if r.random() < .3:
            os.mkdir(os.path.join(root, 'dirindex'))
            os.mkdir(os.path.join(root, 'dirindex', 'index.html'))
            self.other['dirindex/'] = 403
        for n, t in (('l1.html', r.choice(list(self.files) or ['empty'])), ('l2', r.choice(sorted(self.dirs)) or '.')):
            if n not in self.dirs and n not in self.files and r.random() < .6:
                os.symlink(t, os.path.join(root, n))
                if t in self.files:
                    self.files[n] = self.files[t]
                    self.links.add(n)
        if 'dangling' not in self.dirs:
            os.symlink('nowhere', os.path.join(root, 'dangling'))
            self.other['dangling'] = 404

    def index(self, d):
        for i in INDEX:
            q = (d + '/' if d else '') + i
            if q in self.files:
                return q
        return None


def spell(r, path, p):
    """encoded request path for a path below the root"""
    segs = path.split('/')
    out = b''
    for k, s in enumerate(segs):
        out += b'/' * r.choice([1, 1, 1, 1, 2] if p else [1])
        if p and r.random() < .1:
            out += r.choice([b'./', b'.//', b'%2e/'] + [b'empty/../', b'empty/%2E./'] * (k == 0))
        out += pct(r, s, p)
    return out


def request(r, target, method=b'GET'):
    ver = r.choice([b'HTTP/1.0', b'HTTP/1.1', b'HTTP/1.1', b'HTTP/2', b'x', b'HTTP/1.0 extra'])
    hdr = r.choice([b'', b'Host: localhost\r\n', b'Host: x\r\nUser-Agent: y z\r\nRange: bytes=0-1\r\nIf-None-Match: *\r\n', b'X: ' + b'y' * 5000 + b'\r\n'])
    eol = r.choice([b'\r\n', b'\r\n', b'\r\n', b'\n'])
    return method + b' ' + target + b' ' + ver + eol + hdr.replace(b'\r\n', eol) + eol


def run_case(ctx, case):
    r = random.Random(case['seed'])
    res = vlib.Res()
    root = ctx.root
    for f in os.listdir(root):
        vlib.wipe(os.path.join(root, f))
    site = Site(r, root)
    todo = []
    q = lambda: r.choice([b'', b'', b'', b'?', b'?a=b', b'?x/../y?z', b'?%00', b'?a%20b'])
    for f in site.files:
        for p in (0, .1, 1):
            todo.append(('file', f, spell(r, f, p) + q(), 200, site.files[f], f))
    for d in site.dirs:
        ix = site.index(d)
        for p in (0, .3):
            t = spell(r, d, p) if d else b'/'
            if ix:
                if d:
                    todo.append(('dir', d, t + b'/' + q(), 200, site.files[ix], ix))
                    if not t.endswith(b'/'):
                        todo.append(('dir no slash', d, t + q(), 302, None, d))
                else:
                    todo.append(('root', d, t + q(), 200, site.files[ix], ix))
            elif p == 0 or r.random() < .1:
                todo.append(('dir without index', d, (t + (b'/' if d and r.random() < .5 else b'')) + q(), 403, None, None))
    for o, st in site.other.items():
        todo.append(('other', o, spell(r, o, 0), st, None, None))
    names = list(site.files) + sorted(site.dirs)
    for _ in range(6):
        n = r.choice(names)
        m = r.choice([n + 'x', n + '/nothing', n[:-1], 'nope', n + '.html', n.upper(), n + '/' if n in site.files else 'nope/', n + '%00' if False else 'no', 'y' * r.choice([255, 256, 5000]), n.replace('.', '_')])
        real = os.path.join(root, m)
        if m and not os.path.exists(real) and '\0' not in m:
            todo.append(('missing', m, spell(r, m, r.choice([0, .3])), 404, None, None))
    one = r.choice(names)
    t1 = spell(r, one, 0)
    for mth in r.sample([b'POST', b'HEAD', b'PUT', b'DELETE', b'OPTIONS', b'get', b'GETX', b'GE', b'PATCH', b'G' * 3000, b'GET\t'], 3):
        todo.append(('method', mth.decode()[:9], request(r, t1, mth), 405, None, None))
    for bad in r.sample([b'GET\r\n\r\n', b'GET /\r\n\r\n', b'GET ' + t1 + b'\r\n\r\n', b'x\r\n\r\n', b'GET /%00 HTTP/1.0\r\n\r\n', b'GET ' + t1 + b'%00 HTTP/1.0\r\n\r\n', b'GET ' + t1 + b'%00.html HTTP/1.0\r\n\r\n', b'GET /%00/../ HTTP/1.1\r\n\r\n', b'garbage' * 50 + b'\r\n'], 3):
        todo.append(('malformed', bad[:20].decode('latin-1'), bad, 400, None, None))
    r.shuffle(todo)
    for kind, name, target, status, body, f in todo:
        req = target if kind in ('method', 'malformed') else request(r, target)
        chunks = None
        x = r.random()
        if x < .06:
            cut = sorted(r.randrange(len(req) + 1) for _ in range(3))
            chunks = [req[:cut[0]], req[cut[0]:cut[1]], req[cut[1]:cut[2]], req[cut[2]:]]
        elif x < .1 and len(req) < 120:
            chunks = [req[k:k + 1] for k in range(len(req))]
        raw = ctx.srv.raw(req, chunks=chunks, shut=r.random() < .1)
        a = httpc.parse(raw)
        res.n += 1
        d = 'request %r for the %s %r\nanswer %r' % (req[:300], kind, name, raw[:300] if isinstance(raw, bytes) else raw)
        t = ctx.srv.trouble() if isinstance(a, str) or res.n % 20 == 0 else None
        if t:
            res.bad('crash: ' + t[0], t[1] + '\n' + d)
            ctx.srv.stop()
            ctx.srv.start()
            return res
        if isinstance(a, str):
            res.bad('response', a + '\n' + d)
            return res
        if a.status != status:
            res.bad('status', 'status %d instead of %d\n%s' % (a.status, status, d))
            return res
        if 'content-length' not in a.headers:
            res.bad('length', 'no Content-Length\n' + d)
            return res
        if status == 200:
            if a.body != body:
                res.bad('bytes', 'other bytes: %d instead of %d\n%s' % (len(a.body), len(body), d))
                return res
            ok = ext_type(f)
            if f in site.links:
                ok = ok + ext_type(os.readlink(os.path.join(root, f)))
            ct = a.headers.get('content-type', b'').split(b';')[0]
            if ct not in ok:
                res.bad('type', 'content type %r instead of %r\n%s' % (ct, ok, d))
                return res
        elif status == 302:
            loc = a.headers.get('location')
            bare = target.split(b'?')[0]
            if not loc or not loc.endswith(b'/') or not loc.startswith(b'/') or loc.startswith(b'//'):
                res.bad('redirect', 'Location %r\n%s' % (loc, d))
                return res
            a2 = httpc.parse(ctx.srv.raw(b'GET ' + loc + b' HTTP/1.0\r\n\r\n'))
            res.n += 1
            if isinstance(a2, str) or a2.status != 200 or a2.body != site.files[site.index(f)]:
                res.bad('redirect', 'following Location %r gives %s\n%s' % (loc, a2 if isinstance(a2, str) else a2.status, d))
                return res
        res.sig(kind, name, target[:80], status)
        res.feats['%s: %d' % (kind, status)] += 1
        if chunks:
            res.feats['request in pieces'] += 1
        if res.sample is None:
            res.sample = {'request': req[:200].decode('latin-1'), 'status': a.status}
    # the tree changes under the server
    t = ctx.srv.trouble()
    if t:
        res.bad('crash: ' + t[0], t[1])
        ctx.srv.stop()
        ctx.srv.start()
    return res


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
