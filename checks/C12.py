"""C12: blogc exits 0 only if the whole output was produced, also when I/O fails."""
import errno
import os
import resource
import signal
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vbuild  # noqa: E402
import vlib  # noqa: E402

PID = 'C12'
COUNT = {'quick': 260, 'thorough': 12000}
LEVEL = 'fault_enumeration'
RULE = ('random inputs and outputs of up to 70 kB; for each, the run without fault gives the reference, then every involved '
        'file (template, sources, listing entries, list of sources, output, output directories) gets faults of open, read, '
        'write, close, mkdir at several byte offsets, file size limits, full devices, closed and broken pipes, directories '
        'and special files in place of files, short transfers; distinct = different (workload, fault) that really happened')
MIN_DISTINCT = 300
ASSUMPTIONS = ['an error of close() on a file that was only read loses nothing and is not a fault']


def gen(rng, i, tier):
    r = rng
    big = r.choice([0, 0, 10, 100, 1023, 1024, 1025, 4095, 4096, 5000, 20000, 66000])
    return {'mode': r.choice(['entry', 'listing', 'listing entry', 'stdin list', 'print']), 'body': big, 'n': r.choice([1, 2, 3]),
            'tbig': r.choice([0, 0, 2000, 5000]), 'out': r.choice(['out.html', 'a/out.html', 'a/b/c/out.html', './x//y/out.html']),
            'old': r.random() < .3, 'seed': r.randrange(1 << 30), 'empty': r.random() < .04}


class W:
    """One workload in a directory."""

    def __init__(self, ctx, case):
        self.ctx, self.case = ctx, case
        self.d = ctx.fresh()
        c = case
        self.env = vlib.base_env()

        def put(name, text):
            with open(self.d + '/' + name, 'w') as fp:
                fp.write(text)
        t = ('{% block entry %}{{ CONTENT }}{% endblock %}{% block listing %}{{ TITLE }}{{ CONTENT }}\n{% endblock %}'
             '{% block listing_entry %}{{ CONTENT }}{% endblock %}' + 'template text\n' * (c['tbig'] // 14))
        put('t.tmpl', t if not c['empty'] else '{% block entry %}{% endblock %}')
        self.inputs = ['t.tmpl']
        n = c['n'] if c['mode'] not in ('entry', 'print') else 1
        names = []
        for k in range(n):
            body = 'x' * (c['body'] % 1000) + '\n' + ('some words of a line\n' * (c['body'] // 21))
            put('s%d.txt' % k, 'TITLE: title %d\n' % k + 'LONG: ' + 'v' * (c['body'] // 10) + '\n-----\n# Header\n\n' + body)
            names.append('s%d.txt' % k)
        self.inputs += names
        put('e.txt', 'TITLE: e\n---\nentry ' + 'words ' * (c['body'] // 60) + '\n')
        self.stdin = None
        self.args = ['-t', 't.tmpl']
        if c['mode'] == 'stdin list':
            self.args += ['-l', '-i']
            self.stdin = ('\n'.join(names) + '\n').encode()
        elif c['mode'] == 'print':
            self.args = ['-p', 'LONG'] + names
            self.inputs.remove('t.tmpl')
        else:
            self.args += (['-l'] if c['mode'] != 'entry' else []) + names
            if c['mode'] == 'listing entry':
                self.args += ['-e', 'e.txt']
                self.inputs.append('e.txt')

    def reset_out(self):
        vlib.wipe(self.d + '/a')
        vlib.wipe(self.d + '/x')
        vlib.wipe(self.d + '/out.html')
        if self.case['old']:
            o = os.path.join(self.d, self.case['out'])
            os.makedirs(os.path.dirname(o), exist_ok=True)
            with open(o, 'w') as fp:
                fp.write('older and much longer output\n' * 4000)

    def cmd(self, tofile):
        return [self.ctx.asan('blogc')] + self.args + (['-o', self.case['out']] if tofile else [])

    def output(self):
        try:
            with open(os.path.join(self.d, self.case['out']), 'rb') as fp:
                return fp.read()
        except OSError:
            return None


def popen(cmd, d, env, stdin, stdout, pre=None, timeout=60):
    for t in (timeout, 4 * timeout):
        p = subprocess.Popen(cmd, cwd=d, env=env, stdin=subprocess.PIPE if isinstance(stdin, bytes) else stdin or subprocess.DEVNULL,
                             stdout=stdout, stderr=subprocess.PIPE, preexec_fn=pre, start_new_session=True)
        try:
            out, err = p.communicate(stdin if isinstance(stdin, bytes) else None, timeout=t)
            return vlib.R(p.returncode, out or b'', err, False)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
    return vlib.R(None, b'', b'', True)


def run_case(ctx, case):
    import random
    r = random.Random(case['seed'])
    res = vlib.Res()
    w = W(ctx, case)
    so = vbuild.preload('faults', ctx.b['asan'])
    tofile = case['mode'] != 'print'

    # the reference, to standard output and to the file
    ref = vlib.run(w.cmd(False), cwd=w.d, env=w.env, stdin=w.stdin)
    if res.crash(ref, 'reference'):
        return res
    if ref.rc != 0:
        res.bad('failed without a fault', ref.err[-500:].decode('utf-8', 'replace'))
        return res
    want = ref.out
    if tofile:
        w.reset_out()
        x = vlib.run(w.cmd(True), cwd=w.d, env=w.env, stdin=w.stdin)
        if res.crash(x, 'to a file'):
            return res
        if x.rc != 0 or w.output() != want or x.out:
            res.bad('output file', 'exit %r, the output file has %r, standard output would be %r; %r' % (
                x.rc, (w.output() or b'')[:300], want[:300], x.err[-300:]))
            return res
    log = w.d + '/log'

    def judge(what, rr, must_fail, got):
        """got: what was produced"""
        res.n += 1
        if rr.timed_out:
            res.bad('hang', '%s: blogc did not terminate (case %r)' % (what, case))
            return
        if rr.rc == -signal.SIGPIPE:
            res.feats['ended by SIGPIPE'] += 1
            return
        if res.crash(rr, what):
            return
        res.sig(case, what)
        if rr.rc == 0 and must_fail:
            res.bad('success reported', '%s: exit status 0; %d of %d bytes produced (case %r)' % (what, len(got or b''), len(want), case))
        elif rr.rc == 0 and got is not None and got != want:
            res.bad('wrong output with success', '%s: exit status 0 but the output differs: %r instead of %r (case %r)' % (
                what, got[:300], want[:300], case))
        elif rr.rc != 0 and not rr.err.strip():
            res.bad('no message', '%s: exit status %d without a message (case %r)' % (what, rr.rc, case))
        elif rr.rc != 0 and not must_fail:
            res.bad('failed without need', '%s: exit status %d: %s (case %r)' % (what, rr.rc, rr.err[-300:], case))
        if must_fail:
            res.feats['refused: ' + what.split(' of ')[0].split(' at ')[0]] += 1

    def shim(opname, path, at, err, tofile_, expect=None):
        if os.path.exists(log):
            os.unlink(log)
        if tofile_:
            w.reset_out()
        env = dict(w.env, LD_PRELOAD=so, FAULT_PATH=path, FAULT_OP=opname, FAULT_AT=str(at), FAULT_ERRNO=str(err), FAULT_LOG=log)
        rr = popen(w.cmd(tofile_), w.d, env, w.stdin, subprocess.PIPE)
        fired = os.path.exists(log)
        judge('%s of %s at %d errno %d' % (opname, path, at, err), rr, fired, w.output() if tofile_ else rr.out)
        res.feats['faults that happened' if fired else 'faults that did not happen'] += 1

    sizes = {f: os.path.getsize(w.d + '/' + f) for f in w.inputs}
    jobs = []
    for f in w.inputs:
        jobs.append(('open', f, 0, r.choice([errno.EACCES, errno.EMFILE, errno.EIO])))
        for at in {0, 1, sizes[f] // 2, max(0, sizes[f] - 1), 1024, sizes[f]}:
            if at <= sizes[f]:
                jobs.append(('read', f, at, r.choice([errno.EIO, errno.EISDIR, errno.EINTR, errno.ESTALE])))
        jobs.append(('short', f, 0, 0))
    if tofile:
        o = os.path.basename(case['out'])
        jobs.append(('open', o, 0, r.choice([errno.EACCES, errno.ENOSPC, errno.EROFS])))
        jobs.append(('close', o, 0, r.choice([errno.EIO, errno.ENOSPC, errno.EDQUOT])))
        jobs.append(('short', o, 0, 0))
        for at in {0, 1, len(want) // 2, max(0, len(want) - 1), 4096, 4095}:
            if at < len(want):
                jobs.append(('write', o, at, r.choice([errno.ENOSPC, errno.EIO, errno.EDQUOT])))
        for comp in case['out'].split('/')[:-1]:
            if comp not in ('', '.') and not case['old']:
                jobs.append(('mkdir', comp, 0, r.choice([errno.EACCES, errno.ENOSPC, errno.EROFS])))
    r.shuffle(jobs)
    for opname, path, at, err in jobs[:14]:
        shim(opname, path, at, err, tofile)
        if res.viol:
            return res
    # limits of the file size: partial writes at any byte
    if tofile and want:
        for at in {r.randrange(len(want)), len(want) - 1, len(want)}:
            w.reset_out()
            # the old output may be longer than the limit
            vlib.wipe(os.path.join(w.d, case['out']))
            os.makedirs(os.path.dirname(os.path.join(w.d, case['out'])), exist_ok=True)

            def pre(at=at):
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (at, at))
            judge('file size limit at %d' % at, popen(w.cmd(True), w.d, w.env, w.stdin, subprocess.PIPE, pre), at < len(want), w.output())
    # standard output
    if want:
        with open('/dev/full', 'wb') as fp:
            judge('full standard output', popen(w.cmd(False), w.d, w.env, w.stdin, fp), True, None)
        rd, wr = os.pipe()
        os.close(rd)

        def ign():
            signal.signal(signal.SIGPIPE, signal.SIG_IGN)
        judge('broken pipe', popen(w.cmd(False), w.d, w.env, w.stdin, wr, ign), True, None)
        os.close(wr)
        with open('/dev/null', 'rb') as fp:
            judge('standard output not open for writing', popen(w.cmd(False), w.d, w.env, w.stdin, fp), True, None)
        at = r.randrange(len(want))

        def pre2():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (at, at))
        with open(w.d + '/stdout', 'wb') as fp:
            judge('standard output limited at %d' % at, popen(w.cmd(False), w.d, w.env, w.stdin, fp, pre2), True, None)
        with open(w.d + '/stdout', 'wb') as fp:
            rr = popen(w.cmd(False), w.d, w.env, w.stdin, fp)
        with open(w.d + '/stdout', 'rb') as fp:
            judge('standard output to a file', rr, False, fp.read())
    if tofile and want:
        c2 = [a if a != case['out'] else '/dev/full' for a in w.cmd(True)]
        judge('full device as output', popen(c2, w.d, w.env, w.stdin, subprocess.PIPE), True, None)
    # things that are not files
    if tofile:
        for kind in ('output is a directory', 'parent is a file', 'parent is a dangling link', 'name too long', 'loop'):
            w.reset_out()
            out = case['out']
            o = os.path.join(w.d, out)
            if kind == 'output is a directory':
                vlib.wipe(o)
                os.makedirs(o)
            elif kind == 'name too long':
                out = 'a/' + 'n' * 300 + '/out.html'
            elif kind == 'loop':
                vlib.wipe(w.d + '/a')
                os.symlink('a', w.d + '/a')
                out = 'a/out.html'
            else:
                vlib.wipe(w.d + '/a')
                out = 'a/' + r.choice(['', 'b/']) + 'out.html'
                if kind == 'parent is a file':
                    with open(w.d + '/a', 'w') as fp:
                        fp.write('x')
                else:
                    os.symlink('nowhere/at/all', w.d + '/a')
            c2 = [a if a != case['out'] else out for a in w.cmd(True)]
            judge(kind, popen(c2, w.d, w.env, w.stdin, subprocess.PIPE), True, None)
            vlib.wipe(w.d + '/a')
    w.reset_out()
    for f in w.inputs:
        kind = r.choice(['directory', 'missing', 'mem', 'loop', 'under a file', 'dangling'])
        os.rename(w.d + '/' + f, w.d + '/' + f + '.bak')
        p = w.d + '/' + f
        c2 = w.cmd(tofile)
        if kind == 'directory':
            os.mkdir(p)
        elif kind == 'mem':
            os.symlink('/proc/self/mem', p)
        elif kind == 'loop':
            os.symlink(f, p)
        elif kind == 'dangling':
            os.symlink('nowhere', p)
        elif kind == 'under a file' and w.stdin is None:
            c2 = [a if a != f else f + '.bak/x' for a in c2]
        judge('input is %s of %s' % (kind, f), popen(c2, w.d, w.env, w.stdin, subprocess.PIPE), True, None)
        vlib.wipe(p)
        os.rename(p + '.bak', p)
    # an input that arrives in pieces
    if w.stdin is not None:
        fd = os.open(w.d, os.O_RDONLY)
        judge('list of sources is a directory', popen(w.cmd(False), w.d, w.env, fd, subprocess.PIPE), True, None)
        os.close(fd)
        fd = os.open('/dev/null', os.O_WRONLY)
        judge('list of sources not readable', popen(w.cmd(False), w.d, w.env, fd, subprocess.PIPE), True, None)
        os.close(fd)
    if res.sample is None:
        res.sample = {'workload': case, 'bytes': len(want), 'faults': [' '.join(map(str, j)) for j in jobs[:5]]}
    return res


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
