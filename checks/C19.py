"""C19: copied files are byte-identical, and copy failures are reported."""
import errno
import os
import random
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import mk  # noqa: E402
import sitegen  # noqa: E402
import vbuild  # noqa: E402
import vlib  # noqa: E402

PID = 'C19'
VARIANTS = ('asan', 'plain')
COUNT = {'quick': 2500, 'thorough': 60000}
RULE = ('trees of files of random bytes (sizes around every multiple of the buffer, names of any bytes, nesting, links to files and '
        'directories, dangling links, older copies already in place) are copied and compared; then the same with one operation on one '
        'file failing (open, read, write, close, mkdir, opendir; at any byte; short transfers and interruptions, which must not matter), '
        'followed by a build without the fault; distinct = different (tree, faults)')
MIN_DISTINCT = 250
ASSUMPTIONS = ['devices, pipes and endless loops of links are left open', 'paths above the directory of the site and absolute ones are left open']
HOSTILE = ["a'b", 'x y', ' lead', 'trail ', '-n', '--', '\udcff\udcfe', 'n\nl', '\t', '*', '?', '$(x)', '`x`', '\\', 'a\\b', '"', 'é', '日本', '😀', '%s', '...', '.h', '~', '#', '\x01', 'x' * 200, 'a:b', '..a', '[', '{', ';', '&', '!', '\x7f', '=']
SIZES = [0, 1, 2, 511, 512, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3000, 3072, 4095, 4096, 4097, 8192, 10240, 65535, 65536, 65537]
ERRNOS = {'open': [errno.EACCES, errno.EMFILE, errno.EIO, errno.ENOENT, errno.ENOSPC], 'read': [errno.EIO, errno.EISDIR, errno.ENOMEM], 'write': [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG],
          'close': [errno.EIO, errno.ENOSPC, errno.EDQUOT], 'mkdir': [errno.EACCES, errno.ENOSPC, errno.EROFS], 'opendir': [errno.EACCES, errno.EMFILE, errno.EIO], 'short': [0], 'intr': [errno.EINTR]}


def content(r):
    n = r.choice(SIZES) if r.random() < .8 else r.randrange(300000) if r.random() < .3 else r.randrange(6000)
    x = r.random()
    if x < .6:
        return r.randbytes(n)
    if x < .7:
        return b'\0' * n
    if x < .8:
        return b'\xff' * n
    return (b'line\r\n\0' * (n // 6 + 1))[:n]


def gen(rng, i, tier):
    r = random.Random(rng.randrange(1 << 40))
    return {'seed': r.randrange(1 << 40), 'faults': r.choice([0, 1, 2, 3]), 'pre': r.random() < .4, 'rule': r.choice([[], ['copy'], ['all']]), 'outdir': r.choice(mk.OUTDIRS[:11]),
            'posts': r.random() < .2, 'verbose': r.random() < .1}


def mktree(r, d, top):
    """(copy entries, {path below the output: bytes}, directories)"""
    want, entries, dirs, seen = {}, [], [], set()

    def name(k):
        x = r.choice(HOSTILE) if r.random() < .5 else r.choice(['f', 'file.css', 'a.b.c', 'x.tar.gz', 'img.png', 'index.html'])
        while x in seen or x in ('.', '..'):
            x = (x[:100] + '%d' % r.randrange(10 ** 6))
        seen.add(x)
        return x

    def fill(path, depth):
        dirs.append(path)
        for _ in range(r.choice([0, 1, 1, 2, 4]) if depth else r.choice([1, 1, 2, 4])):
            p = path + '/' + name(0)
            f = os.path.join(d, p)
            x = r.random()
            if x < .62:
                want[p] = content(r)
                with open(f, 'wb') as fp:
                    fp.write(want[p])
                if r.random() < .1:
                    os.chmod(f, r.choice([0o400, 0o777, 0o000]))
            elif x < .82 and depth < 5:
                os.mkdir(f)
                fill(p, depth + 1)
            elif x < .88:
                os.symlink(r.choice(['nowhere', '/nonexistent/x', p.rsplit('/', 1)[1]]), f)   # dangling, or to itself
            elif x < .95:
                want[p] = content(r)
                real = os.path.join(top, 'r%d' % r.randrange(10 ** 9))
                with open(real, 'wb') as fp:
                    fp.write(want[p])
                os.symlink(real, f)
            else:
                real = os.path.join(top, 'd%d' % r.randrange(10 ** 9))
                os.mkdir(real)
                b = content(r)
                with open(os.path.join(real, 'in'), 'wb') as fp:
                    fp.write(b)
                want[p + '/in'] = b
                os.symlink(real, f)

    for k in range(r.choice([1, 1, 2, 3])):
        n = ''.join(c for c in name(k) if c not in '\n\udcff\udcfe\t').strip() or 'n'
        if n in ('.', '..') or os.path.lexists(os.path.join(d, n)):
            n = 'n%d' % k
        if r.random() < .35:
            deep = r.choice(['', '', 'deep/er/'])
            n = deep + n
            if os.path.lexists(os.path.join(d, n)):
                continue
            os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
            want[n] = content(r)
            with open(os.path.join(d, n), 'wb') as fp:
                fp.write(want[n])
            entries.append(r.choice(['', '', '', './']) + n)
        else:
            os.mkdir(os.path.join(d, n))
            fill(n, 0)
            entries.append(r.choice(['', '', './']) + n + r.choice(['', '', '/', '//', '/.']))
    if entries and want and r.random() < .15:
        e = r.choice(sorted(want))
        if all(c not in e for c in '\n\udcff\udcfe\t') and e == e.strip():
            entries.append(e)       # listed twice
    return entries, want, dirs


def run_case(ctx, case):
    r = random.Random(case['seed'])
    res = vlib.Res()
    top = ctx.fresh('w')
    d = os.path.join(top, 'site')
    os.mkdir(d)
    entries, want, dirs = mktree(r, d, top)
    while True:
        site = sitegen.generate(r, small=True)
        if not case['posts']:
            site['posts'], site['pages'], site['tags'] = [], [], []
        site['copy'], site['files'] = list(entries), {}
        site['blogcfile'] = 'blogcfile'
        if case['posts']:
            out0 = [p for _, p, _ in sitegen.outputs(site)]
            src = [os.path.normpath(p) for p in sitegen.tree(site, random.Random(0))]
            both = set(out0) | sitegen.parents(out0) | set(src) | sitegen.parents(src)
            if both & (set(want) | sitegen.parents(want) | set(dirs)) or sitegen.collision(site):
                case['posts'] = False
                continue
        break
    sitegen.write(site, d, r)
    val, out = mk.outdir(case['outdir'], top, d)
    if case['outdir'] == 'oq/../z':
        val, out = None, d + '/_build'
    env = mk.env_for(ctx, OUTPUT_DIR=val)
    if os.path.relpath(out, d).split('/')[0] in {e.lstrip('./').split('/')[0] for e in entries}:
        return res
    rc = run_plain(ctx, res, case, d, site, env, out, want, 'build')
    if rc is None:
        return res
    if case['pre'] and want:
        # new contents over older copies
        want = modify(r, d, want, out)
        if run_plain(ctx, res, case, d, site, env, out, want, 'build over older copies') is None:
            return res
    so = vbuild.preload('faults', ctx.b['plain'])
    for k in range(case['faults'] if want else 0):
        f = r.choice(sorted(want))
        op = r.choice(['open', 'read', 'read', 'write', 'write', 'write', 'close', 'mkdir', 'opendir', 'short', 'intr'])
        old = None
        if r.random() < .6:
            shutil.rmtree(out, True)
        else:
            old = dict(want)
            want = modify(r, d, want, out)
        eno = r.choice(ERRNOS[op])
        side = r.choice(['from', 'to'])
        fop, extra = op, {}
        if op == 'intr':
            fop, extra = r.choice(['read', 'write']), {'FAULT_TIMES': str(r.choice([1, 1, 2, 7]))}
        if fop == 'read':
            side = 'from'
        elif fop in ('write', 'close', 'mkdir'):
            side = 'to'
        elif fop == 'opendir':
            side = 'from'
        p = os.path.join(d, f) if side == 'from' else os.path.join(out, f)
        if fop in ('mkdir', 'opendir'):
            p = os.path.dirname(p)
        # the end of the path as the program spells it
        tail = '/'.join(p.split('/')[-3:]) if p.count('/') > top.count('/') + 3 else os.path.basename(p)
        if side == 'to' and os.path.normpath(p).startswith(os.path.normpath(out) + '/'):
            tail = os.path.basename(os.path.normpath(out)) + '/' + os.path.relpath(p, out)
            tail = tail if case['outdir'] not in ('public/', 'out//') else '/' + os.path.relpath(p, out)
        at = r.choice([0, 1, 511, 1023, 1024, 1025, max(0, len(want[f]) - 1), len(want[f]), r.randrange(len(want[f]) + 1)])
        flog = os.path.join(top, 'flog%d' % k)
        fenv = dict(env, LD_PRELOAD=so, FAULT_PATH=tail, FAULT_OP=fop, FAULT_AT=str(at), FAULT_ERRNO=str(eno), FAULT_LOG=flog, **extra)
        p = mk.make(ctx, d, case['rule'], env=fenv, site=site, variant='plain')
        what = 'fault %s of %r at %d (%s) %s' % (fop, tail, at, errno.errorcode.get(eno), 'over older copies' if old else '')
        if res.crash(p, what):
            return res
        hit = os.path.exists(flog)
        got = sitegen.read_tree(out) if os.path.isdir(out) else {}
        res.n += 1
        harmless = op in ('short', 'intr')
        if hit and not harmless:
            res.feats['failed ' + fop] += 1
            if p.rc == 0:
                res.bad('unreported', '%s, but the exit status was 0\n%s' % (what, mk.said(p)))
                return res
            for x in sorted(want):
                g = got.get(x)
                if g is not None and g != want[x] and (old is None or g != old.get(x)):
                    res.bad('partial', '%s left a partial copy of %r: %d of %d bytes\n%s' % (what, x, len(g), len(want[x]), mk.said(p)))
                    return res
        else:
            res.feats[op if hit or op == 'short' else 'faults that never came'] += 1
            w = compare(want, got) if p.rc == 0 else 'exit status %s' % p.rc
            if w:
                res.bad('harmless', '%s, which should not matter: %s\n%s' % (what, w, mk.said(p)))
                return res
        if run_plain(ctx, res, case, d, site, env, out, want, 'build after a %s' % what) is None:
            return res
    res.sig(case['seed'], sorted(want))
    res.sample = {'copy': entries, 'files': [[x, len(want[x])] for x in sorted(want)][:10]}
    return res


def compare(want, got):
    for x in sorted(want):
        if x not in got or got[x] is None:
            return 'no file %r' % x
        if got[x] != want[x]:
            k = next((k for k in range(min(len(got[x]), len(want[x]))) if got[x][k] != want[x][k]), min(len(got[x]), len(want[x])))
            return '%r has %d bytes instead of %d, and differs at byte %d' % (x, len(got[x]), len(want[x]), k)
    return None


def run_plain(ctx, res, case, d, site, env, out, want, what):
    p = mk.make(ctx, d, case['rule'], env=env, site=site, args=['-V'] if case['verbose'] else [])
    if res.crash(p, what):
        return None
    got = sitegen.read_tree(out) if os.path.isdir(out) else {}
    res.n += len(want)
    w = compare(want, got) if p.rc == 0 else 'exit status %s' % p.rc
    if not w:
        posts = {q for _, q, _ in sitegen.outputs(site)}
        for x in got:
            if got[x] is not None and x not in want and x not in posts:
                w = 'unexpected file %r' % x
    if w:
        res.bad('copy', '%s: %s\n%s\n%r' % (what, w, mk.said(p), site['copy']))
        return None
    res.feats['files copied'] += len(want)
    res.feats['bytes copied'] += sum(map(len, want.values()))
    return True


def modify(r, d, want, out):
    """other contents, later than their copies"""
    new = dict(want)
    for x in sorted(want):
        f = os.path.join(d, x)
        if r.random() < .6:
            new[x] = r.choice([b'', want[x][:len(want[x]) // 2], want[x] + b'more', r.randbytes(len(want[x])), content(r)])
            with open(f, 'wb') as fp:
                fp.write(new[x])
            t = os.stat(f).st_mtime_ns
            o = os.path.join(out, x)
            if os.path.exists(o):
                # the copy was made long ago
                t0 = t - r.choice([1000, 10 ** 6, 10 ** 9, 10 ** 15])
                os.utime(o, ns=(t0, t0))
    return new


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
