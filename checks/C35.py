"""C35: the web server listens exactly where it was told, says so, or fails."""
import os
import random
import re
import signal
import socket
import subprocess
import sys
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib  # noqa: E402

PID = 'C35'
COUNT = {'quick': 3600, 'thorough': 120000}
RULE = ('random command lines and environments of blogc-runserver: address and port given by option, by BLOGC_RUNSERVER_DEFAULT_HOST/PORT, by both '
        'or by neither, in any order and spelling, and mistakes (unknown options, no or two directories, impossible addresses, ports and '
        'numbers of threads, ports in use). The sockets of the process are read from /proc: a running server must have exactly one listening '
        'socket, on the address and port asked for, name them in its banner, serve a file there, and be able to start again at once after it was '
        'stopped; a refused one must exit with an error and a message; distinct = different (arguments without the port number, environment)')
MIN_DISTINCT = 2500
ASSUMPTIONS = ['what "-p 0" and an empty variable in the environment mean is not documented; not judged']
HOSTS = ['127.0.0.1', '127.0.0.1', 'localhost', '::1', '127.0.0.2', '127.9.8.7', '0.0.0.0', '::', '127.1', '0:0::1', '::ffff:127.0.0.1']
BADHOSTS = ['', '[::1]', '127.0.0.1:80', '203.0.113.7', '2001:db8::1', '127.0.0.1 ', '1.2.3.4.5', '127.0.0.256', '-', 'no host', '::1::']
BADPORTS = ['', 'x', '65536', '70000', '-1', '-8080', '8080x', '80 80', '0x50', '99999999999999999999', '4294967376', '65537', '+', '8080/', '１２']
BADTHREADS = ['0', '-1', '1001', 'x', '', '1000000', '18446744073709551615', '18446744073709551616']


def gen(rng, i, tier):
    r = rng
    m = None
    if r.random() < .45:
        m = r.choice(['host', 'port', 'port', 'port', 'threads', 'threads', 'option', 'no dir', 'two dirs', 'busy', 'busy'])
    return {'mistake': m, 'host': r.choice(HOSTS), 'hostby': r.choice(['opt', 'opt', 'env', 'both', 'none']), 'portby': r.choice(['opt', 'opt', 'opt', 'env', 'both', 'both', 'none'] if r.random() < .3 else ['opt', 'env', 'both']),
            'threads': r.choice([None, None, '1', '2', '7', '20', '1000', '+3', ' 4', '5x']), 'seed': r.randrange(1 << 40), 'restart': r.random() < .3,
            'info': r.random() < .05}


def listening(pid):
    """as seen in two readings that agree (rows can be missed when the table changes while it is read)"""
    last = None
    for _ in range(50):
        now = read_listening(pid)
        if now == last and now:
            break
        last = now
    return now


def read_listening(pid):
    """[(address, port)] of the listening TCP sockets of a process of ours"""
    inodes = set()
    try:
        for f in os.listdir('/proc/%d/fd' % pid):
            try:
                l = os.readlink('/proc/%d/fd/%s' % (pid, f))
            except OSError:
                continue
            m = re.fullmatch(r'socket:\[(\d+)\]', l)
            if m:
                inodes.add(m.group(1))
    except OSError:
        return []
    out = {}        # by inode: a row can come twice when the table changes while it is read
    for name, fam in (('tcp', socket.AF_INET), ('tcp6', socket.AF_INET6)):
        try:
            with open('/proc/net/' + name) as fp:
                rows = fp.read().splitlines()[1:]
        except OSError:
            continue
        for row in rows:
            w = row.split()
            if w[3] == '0A' and w[9] in inodes:
                a, p = w[1].split(':')
                raw = b''.join(bytes.fromhex(a[k:k + 8])[::-1] for k in range(0, len(a), 8))
                out[w[9]] = (socket.inet_ntop(fam, raw), int(p, 16))
    return list(out.values())


def free_port(r):
    for _ in range(200):
        p = r.randrange(10000, 32000)
        try:
            for fam, a in ((socket.AF_INET6, '::'), (socket.AF_INET, '0.0.0.0')):
                s = socket.socket(fam)
                if fam == socket.AF_INET6:
                    s.setsockopt(socket.IPPROTO_IPV6, socket.IPV6_V6ONLY, 1)
                try:
                    s.bind((a, p))
                finally:
                    s.close()
            return p
        except OSError:
            continue
    return None


class Run:
    def __init__(self, exe, args, env, cwd, log):
        self.log = log
        self.fp = open(log, 'wb')
        self.p = subprocess.Popen([exe] + args, env=env, cwd=cwd, stdin=subprocess.DEVNULL, stdout=self.fp, stderr=self.fp, start_new_session=True, preexec_fn=vlib.die_with_parent)

    def text(self):
        with open(self.log, 'rb') as fp:
            return fp.read()

    def wait(self, secs=30):
        """True when it runs, False when it ended, None when neither is clear"""
        end = time.time() + secs
        while time.time() < end:
            if self.p.poll() is not None:
                return False
            if b'Running on' in self.text() and b'max threads' in self.text():
                return True
            time.sleep(.004)
        return None

    def close(self):
        self.stop()

    def stop(self):
        if self.p.poll() is None:
            os.killpg(self.p.pid, signal.SIGKILL)
        self.p.wait()
        self.fp.close()


def get(addr, port):
    if addr == '0.0.0.0':
        addr = '127.0.0.1'
    if addr == '::':
        addr = '::1'
    s = socket.create_connection((addr, port), timeout=30)
    try:
        s.sendall(b'GET /f.txt HTTP/1.0\r\n\r\n')
        d = b''
        while True:
            x = s.recv(65536)
            if not x:
                return d
            d += x
    finally:
        s.close()


def addresses(host):
    out = []
    for x in socket.getaddrinfo(host, 80, type=socket.SOCK_STREAM, flags=socket.AI_PASSIVE):
        out.append(socket.inet_ntop(x[0], socket.inet_pton(x[0], x[4][0])))
    return out


def run_case(ctx, case):
    r = random.Random(case['seed'])
    res = vlib.Res()
    d = ctx.fresh()
    exe = ctx.asan('blogc-runserver')
    m = case['mistake']
    root = r.choice(['root', 'a b', 'é', './root/', 'x/../root'])
    os.makedirs(os.path.join(d, os.path.normpath(root)), exist_ok=True)
    os.makedirs(os.path.join(d, 'x'), exist_ok=True)
    body = b'%016x' % r.randrange(1 << 60)
    with open(os.path.join(d, root, 'f.txt'), 'wb') as fp:
        fp.write(body)
    if r.random() < .3:
        root = os.path.join(d, root)
    host = case['host']
    for attempt in range(6):
        port = free_port(r)
        if port is None:
            return res
        env = vlib.base_env()
        for k in ('BLOGC_RUNSERVER_DEFAULT_HOST', 'BLOGC_RUNSERVER_DEFAULT_PORT'):
            env.pop(k, None)

        def opt(letter, v):
            return ['-' + letter + v] if v and r.random() < .4 else ['-' + letter, v]
        groups = [[root]]
        h = r.choice(BADHOSTS) if m == 'host' else host
        hb, pb = case['hostby'], case['portby']
        if m == 'host' and hb == 'none' or m == 'host' and hb == 'env' and h == '':
            hb = 'opt'
        if hb == 'none':
            h = '127.0.0.1'
        if hb in ('opt', 'both'):
            groups.append(opt('t', h))
        if hb == 'env':
            env['BLOGC_RUNSERVER_DEFAULT_HOST'] = h
        elif hb == 'both':
            env['BLOGC_RUNSERVER_DEFAULT_HOST'] = r.choice([x for x in HOSTS if x != h] + ['203.0.113.7', 'x'])
        pv = str(port)
        if m == 'port':
            pv = r.choice(BADPORTS)
            if pb == 'none' or pb == 'env' and pv == '':
                pb = 'opt'
        if m == 'busy' and pb == 'none':
            pb = 'opt'
        if pb == 'none':
            port, pv = 8080, '8080'
        if pb in ('opt', 'both'):
            groups.append(opt('p', pv))
        if pb == 'env':
            env['BLOGC_RUNSERVER_DEFAULT_PORT'] = pv
        elif pb == 'both':
            env['BLOGC_RUNSERVER_DEFAULT_PORT'] = r.choice(['1', '8080', 'x', '80'])
        threads = case['threads']
        if m == 'threads':
            threads = r.choice(BADTHREADS)
        if threads is not None:
            groups.append(opt('m', threads))
        if m == 'option':
            groups.append(['-' + r.choice('abcdefgijklnoqrsuwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-?+:') + r.choice(['', 'x', '1'])])
        elif m == 'no dir':
            groups.pop(0)
        elif m == 'two dirs':
            groups.append([r.choice([root, 'x', '', '/nonexistent'])])
        r.shuffle(groups)
        args = [x for g in groups for x in g]
        if case['info']:
            args = ['-h' if r.random() < .7 else '-v'] + args
        envs = {k: v for k, v in env.items() if k.startswith('BLOGC_RUN')}
        what = 'blogc-runserver %s, environment %r' % (' '.join(map(repr, args)), envs)
        blocker = None
        if m == 'busy':
            blocker = []
            other = r.random() < .4
            for k, a in enumerate(addresses(h)):
                if other:               # the port is used by another web server
                    s = Run(exe, ['-t', a, '-p', str(port), root], vlib.base_env(), d, os.path.join(d, 'other%d' % k))
                    blocker.append(s)
                    if not s.wait():
                        break
                    continue
                s = socket.socket(socket.AF_INET6 if ':' in a else socket.AF_INET)
                if ':' in a:
                    s.setsockopt(socket.IPPROTO_IPV6, socket.IPV6_V6ONLY, 0 if a == '::' or a.startswith('::ffff') else 1)
                blocker.append(s)
                try:
                    s.bind((a, port))
                    s.listen()
                except OSError:
                    break
            else:
                a = None
            if a is not None:
                for s in blocker:
                    s.close()
                continue
        run = Run(exe, args, env, d, os.path.join(d, 'log'))
        try:
            up = run.wait()
            text = run.text()
            socks = listening(run.p.pid) if up else []
            if up is None:
                res.bad('neither', '%s: neither runs nor ends: %r' % (what, text[-500:]))
                return res
            rc = run.p.poll()
            if rc is not None:
                rep = vlib.sanitizer(vlib.R(rc, b'', text, False))
                if rep:
                    res.bad(str(rep), '%s\n%s' % (what, vlib.report(text)))
                    return res
            if not up and m is None and not case['info'] and b'Address already in use' in text:
                continue            # somebody else was faster
            res.n += 1
            res.sig([a.replace(pv, 'P') if pv.isdigit() and len(pv) > 3 else a for a in args], {k: v.replace(pv, 'P') if pv else v for k, v in envs.items()}, m)
            if case['info']:
                res.feats['help and version'] += 1
                if up or rc != 0 or (b'usage:' if args[0] == '-h' else b'blogc ') not in text:
                    res.bad('information', '%s: exit %r, %r' % (what, rc, text[:500]))
                elif args[0] == '-h':
                    for k, dflt in (('HOST', '127.0.0.1'), ('PORT', '8080')):
                        v = env.get('BLOGC_RUNSERVER_DEFAULT_' + k, dflt)
                        if v.encode() not in text:
                            res.bad('information', '%s does not show the default %r: %r' % (what, v, text[:700]))
                return res
            if m is not None:
                res.feats['refused: ' + m] += 1
                if up:
                    res.bad('accepted', '%s (%s): it runs, on %r: %r' % (what, m, socks, text[:300]))
                elif rc == 0:
                    res.bad('accepted', '%s (%s): exit 0: %r' % (what, m, text[:500]))
                elif not text.strip():
                    res.bad('silent', '%s (%s): no message' % (what, m))
                elif res.sample is None:
                    res.sample = {'command': what, 'mistake': m, 'status': rc, 'message': text[-200:].decode('utf-8', 'replace')}
                return res
            if not up:
                res.bad('refused', '%s: exit %r, %r' % (what, rc, text[-500:]))
                return res
            want = addresses(h)
            res.feats['running on ' + h] += 1
            if len(socks) != 1 or socks[0][0] not in want or socks[0][1] != port:
                res.bad('socket', '%s: listens on %r instead of one of %r, port %d' % (what, socks, want, port))
                return res
            a = socks[0][0]
            url = 'http://%s:%d/' % ('[%s]' % a if ':' in a else a, port)
            if url.encode() not in text:
                res.bad('banner', '%s listens on %s but says %r' % (what, url, text[:300]))
                return res
            if threads is not None:
                n = re.sub('[^0-9]', '', threads)
                if ('max threads: %s)' % n).encode() not in text:
                    res.bad('threads', '%s: %r' % (what, text[:300]))
                    return res
            for k in range(2 if case['restart'] and pb != 'none' else 1):
                try:
                    got = get(a, port)
                except OSError as e:
                    res.bad('request', '%s: %s' % (what, e))
                    return res
                if not re.match(br'HTTP/1\.[01] 200 ', got) or not got.endswith(b'\r\n\r\n' + body):
                    res.bad('request', '%s: %r' % (what, got[:500]))
                    return res
                if case['restart'] and k == 0:
                    run.stop()
                    for again in range(4):      # another worker may be trying the port just now
                        run = Run(exe, args, env, d, os.path.join(d, 'log'))
                        up = run.wait()
                        if up or b'in use' not in run.text():
                            break
                        run.stop()
                        time.sleep(.1)
                    if not up:
                        res.bad('restart', '%s: it does not start again: %r' % (what, run.text()[-500:]))
                        return res
                    if listening(run.p.pid) != socks:
                        res.bad('restart', '%s: listens on %r after %r' % (what, listening(run.p.pid), socks))
                        return res
                    res.feats['started again at once'] += 1
            return res
        finally:
            run.stop()
            for s in blocker or []:
                s.close()
    res.feats['no free port'] += 1
    return res


def shrink(case):
    for k, v in (('threads', None), ('restart', False), ('hostby', 'opt'), ('portby', 'opt'), ('host', '127.0.0.1')):
        if case[k] != v:
            yield dict(case, **{k: v})


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
