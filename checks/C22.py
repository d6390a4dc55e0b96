"""C22: watch and runserver rebuild after each change, survive mistakes, and race with nothing."""
import copy
import os
import random
import shutil
import signal
import subprocess
import sys
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import C17  # noqa: E402
import httpc  # noqa: E402
import mk  # noqa: E402
import sitegen  # noqa: E402
import vbuild  # noqa: E402
import vlib  # noqa: E402

PID = 'C22'
VARIANTS = ('asan', 'tsan', 'plain')
COUNT = {'quick': 240, 'thorough': 9000}
WORKERS = 14
RULE = ('histories of edits, mistakes and corrections under blogc-make watch and runserver; the sleeps between polls end when the check says so, '
        'so edits are placed between polls or during a build; after at most three polls each file must be that of a clean build of the same '
        'state; the program must stay alive until it is told to stop or its server exits, with the status of the server; AddressSanitizer or '
        'ThreadSanitizer watch; distinct = different histories')
MIN_DISTINCT = 120
ASSUMPTIONS = ['a change made while a build is reading the file is followed by another one between two polls',
               'files that a clean build would not produce may stay', 'new and removed files of a copied directory are noticed when blogcfile changes',
               'a change makes the file newer than all outputs']
POLLS = 3
SERVER = '''#!/bin/sh
# a server that runs until it is told to exit
echo "$@" > "$STUB_ARGS"
case "$STUB_EXIT" in
now) exit "$STUB_CODE";;
esac
while [ ! -e "$STUB_STOP" ] && [ -e "$0" ]; do sleep .02; done
exit "$STUB_CODE"
'''


def gen(rng, i, tier):
    r = random.Random(rng.randrange(1 << 40))
    site = sitegen.generate(r, small=True)
    if r.random() < .4:
        site['settings'].setdefault('atom_template', 'feed.tmpl')
        if sitegen.collision(site):
            del site['settings']['atom_template']
    g = sitegen.Gen(r, True)
    g.n = 50
    steps, every = [site], {}
    C17.note(every, site)
    what = [[]]
    for _ in range(r.choice([2, 3, 4, 5]) if tier == 'quick' else r.choice([3, 5, 8, 12])):
        for _ in range(30):
            s = copy.deepcopy(steps[-1])
            ops = [only(r, s, g)] if r.random() < .45 else [C17.edit(r, s, g) for _ in range(r.choice([1, 1, 1, 2, 3]))]
            if s['dev'] == steps[-1]['dev'] and not sitegen.collision(s) and C17.fits(every, s):
                steps.append(s)
                what.append(ops)
                C17.note(every, s)
                break
    mode = r.choice(['watch', 'watch', 'watch', 'stub', 'stub', 'real'])
    return {'steps': steps, 'what': what, 'seed': r.randrange(1 << 40), 'mode': mode, 'variant': r.choice(['asan', 'asan', 'tsan', 'tsan', 'tsan']),
            'broken': [r.choice([None, None, 'source', 'template', 'gone', 'blogcfile', 'copy', 'copygone', 'tmplgone', 'nofile']) if k or r.random() < .3 else None
                       for k in range(len(steps))],
            'storm': [r.random() < .25 for _ in steps], 'outdir': r.choice(mk.OUTDIRS[:11]), 'prebuilt': r.random() < .3,
            'save': r.choice(['write', 'rename', 'replace']), 'far': r.random() < .1,
            'end': r.choice(['int', 'int', 'intbuild', 'intfail', 'term']) if mode != 'stub' else
            r.choice(['int', 'exit', 'exit', 'exitbuild', 'exitbuild', 'exitfail', 'now', 'gone', 'killed']),
            'code': r.choice([0, 1, 2, 3, 42, 77, 127, 255]), 'verbose': r.random() < .3}


def only(r, s, g):
    """one file changes, and not blogcfile"""
    can = [x for x, there in (('entry', s['entry']), ('entry', s['entry']), ('atom', 'atom_template' in s['settings']), ('main', True), ('post', s['posts']),
                              ('page', s['pages']), ('file', s['files'])) if there]
    x = r.choice(can)
    if x in ('atom', 'main'):
        s['mark_' + x] = '%d' % r.randrange(10 ** 6)
    elif x == 'file':
        f = r.choice(sorted(s['files']))
        s['files'][f] = [r.randrange(10 ** 6), r.choice([0, 1, 1024, 3000])]
    else:
        C17.body(r, {'entry': [s['entry']], 'post': s['posts'], 'page': s['pages']}[x][r.randrange(1 if x == 'entry' else len(s[x + 's']))], g)
    return 'only ' + x


class Watch:
    def __init__(self, ctx, case, top, d, val, site):
        self.ctx, self.case, self.top, self.d = ctx, case, top, d
        self.log, self.gate = os.path.join(top, 'log'), os.path.join(top, 'gate')
        os.mkfifo(self.gate)
        self.fifo = os.open(self.gate, os.O_RDWR | os.O_CLOEXEC)
        self.stop_file = os.path.join(top, 'stop')
        v = case['variant']
        env = mk.env_for(ctx, OUTPUT_DIR=val, LD_PRELOAD=vbuild.preload('watchshim', ctx.b['plain']), WATCH_LOG=self.log, WATCH_GATE=self.gate,
                         WATCH_FAST='10', STUB_STOP=self.stop_file, STUB_CODE=str(case['code']), STUB_ARGS=os.path.join(top, 'args'),
                         STUB_EXIT='now' if case['end'] == 'now' else 'later')
        cmd = [getattr(ctx, v)('blogc-make')]
        if site['dev']:
            cmd.append('-D')
        if case['verbose']:
            cmd.append('-V')
        if site['blogcfile'] != 'blogcfile':
            cmd += ['-f', site['blogcfile']]
        self.port = None
        if case['mode'] == 'watch':
            cmd.append('watch')
        elif case['mode'] == 'stub':
            cmd.append('runserver')
            s = os.path.join(top, 'server')
            with open(s, 'w') as fp:
                fp.write(SERVER)
            os.chmod(s, 0o755)
            env['BLOGC_RUNSERVER'] = s if case['end'] != 'gone' else os.path.join(top, 'no such server')
        else:
            self.port = httpc.free_port() if hasattr(httpc, 'free_port') else free_port()
            cmd.append('runserver:host=127.0.0.1,port=%d,threads=%d' % (self.port, case['seed'] % 7 + 1))
            env['BLOGC_RUNSERVER'] = ctx.plain('blogc-runserver')
        self.out, self.err = open(os.path.join(top, 'stdout'), 'wb'), open(os.path.join(top, 'stderr'), 'wb')
        self.p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=self.out, stderr=self.err, env=env, cwd=d, start_new_session=True, preexec_fn=vlib.die_with_parent)

    def events(self):
        try:
            with open(self.log) as fp:
                return fp.read().split('\n')[:-1]
        except OSError:
            return []

    def idle(self):
        """how many polls began, and whether one is going on"""
        e = [x for x in self.events() if x[0] in 'BE']
        return len([x for x in e if x[0] == 'B']), bool(e) and e[-1][0] == 'B'

    def wait(self, seconds=60):
        """until it sleeps: True; False: it exited; None: neither"""
        end = time.time() + seconds
        while time.time() < end:
            if self.idle()[1]:
                return True
            if self.p.poll() is not None:
                return False
            time.sleep(.004)
        return None

    def release(self):
        n = self.idle()[0]
        os.write(self.fifo, b'x')
        return n

    def poll(self, seconds=90):
        """lets one poll happen"""
        n = self.release()
        end = time.time() + seconds
        while time.time() < end:
            k, asleep = self.idle()
            if k > n and asleep:
                return True
            if self.p.poll() is not None:
                return False
            time.sleep(.004)
        return None

    def said(self):
        with open(self.err.name, 'rb') as fp:
            err = fp.read()
        with open(self.out.name, 'rb') as fp:
            return vlib.R(self.p.poll(), fp.read(), err, False)

    def exited(self, seconds):
        try:
            return self.p.wait(seconds)
        except subprocess.TimeoutExpired:
            return None

    def close(self):
        open(self.stop_file, 'w').close()
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        os.close(self.fifo)
        self.out.close()
        self.err.close()
        for e in self.events():
            if e.startswith('T /') and 'blogc-make_' in e:
                try:
                    os.unlink(e[2:])
                except OSError:
                    pass


def free_port():
    import socket
    s = socket.socket()
    s.bind(('127.0.0.1', 0))
    p = s.getsockname()[1]
    s.close()
    return p


class Disk:
    def __init__(self, d, out, r, case):
        self.d, self.out, self.r, self.case, self.have, self.future, self.last = d, out, r, case, {}, {}, {}

    def latest(self):
        return max([os.stat(os.path.join(w, f)).st_mtime_ns for w, _, fs in os.walk(self.out) for f in fs] or [0])

    def put(self, p, data, how=None):
        """a newer version of a file, saved as editors do"""
        f = os.path.join(self.d, p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        floor = max(self.latest(), self.last.get(p, 0))
        how = how or self.case['save']
        while True:
            g = f if how == 'write' else f + '~new'
            if how == 'replace' and os.path.exists(f):
                os.unlink(f)
            with open(g, 'wb') as fp:
                fp.write(data)
            if self.future.get(p):
                self.future[p] += 3600
                os.utime(g, ns=(floor, floor + 3600 * C17.NS))
            if how != 'write':
                os.rename(g, f)
            if os.stat(f).st_mtime_ns > floor:
                self.last[p] = os.stat(f).st_mtime_ns
                return
            time.sleep(.001)

    def apply(self, t, touch=()):
        """the files that were changed"""
        changed = []
        for p in sorted(set(self.have) - set(t)):
            os.unlink(os.path.join(self.d, p))
            changed.append(p)
        for p in sorted(t):
            if self.have.get(p) != t[p] or p in touch:
                if self.case['far'] and p not in self.future and self.r.random() < .2:
                    self.future[p] = 1
                self.put(p, t[p])
                changed.append(p)
        self.have = dict(t)
        return changed


def dirs_differ(site, old, new):
    """files came or went in a directory that is copied"""
    ds = [c for c in site['copy'] if c not in site['files']]
    return any(f.startswith(c + '/') for c in ds for f in set(old) ^ set(new))


def bytes_of(t):
    return {p: x.encode('utf-8', 'surrogateescape') if isinstance(x, str) else x for p, x in t.items()}


def mistake(r, site, t, how):
    bad = dict(t)
    main = sitegen.S(site, 'template_dir') + '/' + sitegen.S(site, 'main_template')
    if how in ('source', 'gone') and site['posts']:
        f = sitegen.source_path(site, r.choice(site['posts'])['slug'], True)
        if how == 'gone':
            del bad[f]
        else:
            bad[f] = r.choice([b'', b'TITLE', b'not a source'])
    elif how == 'template':
        bad[main] = r.choice([b'{% block entry %}', b'{{ X', b'{% endif %}'])
    elif how == 'tmplgone':
        del bad[main]
    elif how == 'blogcfile':
        bad[site['blogcfile']] = r.choice([b'[', b'x=y', b'', t[site['blogcfile']] + b'\n[glob', b'[settings]\n'])
    elif how == 'nofile':
        del bad[site['blogcfile']]
    elif how in ('copy', 'copygone') and [f for f in site['copy'] if f in t]:
        del bad[r.choice([f for f in site['copy'] if f in t])]
    else:
        return None
    return bad


def run_case(ctx, case):
    r = random.Random(case['seed'])
    res = vlib.Res()
    top = ctx.fresh('w')
    d = os.path.join(top, 'site')
    os.mkdir(d)
    if case['outdir'] == 'oq/../z':
        os.mkdir(os.path.join(d, 'oq'))
    val, out = mk.outdir(case['outdir'], top, d)
    disk = Disk(d, out, r, case)
    story = ['%s, %s' % (case['mode'], case['variant'])]
    site = case['steps'][0]
    t = bytes_of(sitegen.tree(site, random.Random(case['seed'])))
    disk.apply(t)
    if case['prebuilt']:
        p = mk.make(ctx, d, env=mk.env_for(ctx, OUTPUT_DIR=val), site=site)
        if res.crash(p, 'blogc-make'):
            return res
    first = mistake(r, site, t, case['broken'][0])
    if first is not None and case['broken'][0] not in ('blogcfile', 'nofile') and case['end'] not in ('now', 'gone'):
        disk.apply(first)
        story.append('starts with a mistake: ' + case['broken'][0])
    w = Watch(ctx, case, top, d, val, site)
    try:
        history(ctx, case, r, res, disk, w, out, story)
    finally:
        w.close()
    if not res.viol:
        s = vlib.sanitizer(w.said()._replace(rc=0))
        if s:
            res.bad('crash: ' + s, '%s\n%s\n%s' % (s, '\n'.join(story), vlib.report(w.said().err)))
    shutil.rmtree(d, True)
    res.sig(case['what'], case['broken'], case['storm'], case['mode'], case['end'])
    res.feats['%s, %s' % (case['mode'], case['variant'])] += 1
    res.sample = {'history': story}
    return res


def tell(w, story):
    return '%s\n%s' % ('\n'.join(story), mk.said(w.said()))


def down(res, w, story, state):
    """w is not where it should be"""
    r = w.said()
    s = vlib.sanitizer(r)
    if s:
        res.bad('crash: ' + s, '%s\n%s\n%s' % (s, '\n'.join(story), vlib.report(r.err)))
    elif state is False:
        res.bad('stopped', 'the watcher exited by itself\n' + tell(w, story))
    else:
        res.bad('stuck', 'the watcher neither polls nor exits\n' + tell(w, story))


def history(ctx, case, r, res, disk, w, out, story):
    if case['end'] in ('now', 'gone'):
        # the server exits at once: what counts is that everything ends
        rc = None
        end = time.time() + 120
        while rc is None and time.time() < end:
            rc = w.exited(.02)
            if w.idle()[1]:
                w.release()
        code = 1 if case['end'] == 'gone' or case['code'] == 127 else case['code']
        res.n += 1
        if rc is None or rc not in (code, 1):
            res.bad('status', 'the server exited with %d, blogc-make with %r\n%s' % (code, rc, tell(w, story)))
        res.feats['server exits at once'] += 1
        return
    state = w.wait()
    real_time = state is None and w.p.poll() is None        # sleeps in some other way
    if state is False:
        return down(res, w, story, state)
    if real_time:
        res.feats['no polls seen'] += 1
    for k, site in enumerate(case['steps']):
        story.append('step %d: %s' % (k, ', '.join(case['what'][k]) or '-'))
        t = bytes_of(sitegen.tree(site, random.Random(case['seed'])))
        bad = mistake(r, site, t, case['broken'][k])
        if k and bad is not None:
            touch = [site['blogcfile']] if site['blogcfile'] in bad and dirs_differ(site, disk.have, bad) else []
            story.append('mistake: ' + case['broken'][k])
            before = len(w.said().err)
            disk.apply(bad, touch)
            if not real_time:
                # one poll to see it and others while it lasts
                for _ in range(r.choice([1, 1, 2, 4])):
                    state = w.poll()
                    if state is not True:
                        return down(res, w, story, state)
                if len(w.said().err) == before and case['broken'][k] in ('source', 'template', 'blogcfile') and fails(ctx, case, disk, site, w):
                    res.bad('silent', 'nothing was reported\n' + tell(w, story))
                    return
            else:
                time.sleep(3)
                if w.p.poll() is not None:
                    return down(res, w, story, False)
            res.n += 1
            res.feats['mistake: ' + case['broken'][k]] += 1
        changed = []
        if case['storm'][k] and not real_time:
            # while it builds; then once more, between polls
            n = w.release()
            half = dict(disk.have)
            for p in r.sample(sorted(set(t) | set(half)), len(set(t) | set(half))):
                if half.get(p) != t.get(p):
                    time.sleep(r.choice([0, 0, 0, .001, .005, .02]))
                    if p in t:
                        half[p] = t[p]
                    else:
                        del half[p]
                    changed += disk.apply(half)
            end = time.time() + 90
            while not (w.idle()[0] > n and w.idle()[1]):
                if w.p.poll() is not None or time.time() > end:
                    return down(res, w, story, False if w.p.poll() is not None else None)
                time.sleep(.004)
            story.append('changed during a build, and once more after it')
            res.feats['changes during a build'] += len(changed)
            disk.apply(t, set(changed) | {site['blogcfile']})
        else:
            touch = [site['blogcfile']] if dirs_differ(site, disk.have, t) else []
            disk.apply(t, touch)
        clean = os.path.join(w.top, 'clean')
        p = mk.make(ctx, disk.d, env=mk.env_for(ctx, OUTPUT_DIR=clean), site=site, variant='plain')
        if p.rc != 0:
            res.bad('status', 'the clean build failed\n%s\n%s' % ('\n'.join(story), mk.said(p)))
            return
        want = sitegen.read_tree(clean) if os.path.isdir(clean) else {}
        vlib.wipe(clean)
        n = 0
        end = time.time() + 60
        while True:
            if not real_time:
                state = w.poll()
                if state is not True:
                    return down(res, w, story, state)
            elif w.p.poll() is not None:
                return down(res, w, story, False)
            n += 1
            got = sitegen.read_tree(out) if os.path.isdir(out) else {}
            d = [f for f in sorted(want) if want[f] != got.get(f, 0)]
            if not d:
                break
            if n >= POLLS and not real_time or time.time() > end:
                f = d[0]
                res.bad('stale', '%r is not that of a clean build after %d polls: %r instead of %r\n%s' % (
                    f, n, (got.get(f) or b'missing')[:500], (want[f] or b'directory')[:500], tell(w, story)))
                return
            if real_time:
                time.sleep(1)
                if n % 10 == 0:
                    disk.apply(t, set(t))
        res.n += 1
        res.feats['changes built after %d' % n] += 1
        for x in case['what'][k]:
            res.feats[x.split()[0] if x.startswith('setting') else x] += 1
        if w.port and not real_time and not served(ctx, case, r, res, w, want, story):
            return
        if not real_time and r.random() < .2:
            state = w.poll()
            if state is not True:
                return down(res, w, story, state)
    finish(ctx, case, r, res, disk, w, story, site, real_time)


def fails(ctx, case, disk, site, w):
    """a clean build of what is there fails; a file that is no longer there has no modification time to notice"""
    clean = os.path.join(w.top, 'clean')
    p = mk.make(ctx, disk.d, env=mk.env_for(ctx, OUTPUT_DIR=clean), site=site, variant='plain')
    vlib.wipe(clean)
    return p.rc != 0


def served(ctx, case, r, res, w, want, story):
    """the server shows what was built"""
    import socket
    files = [f for f in want if want[f] is not None and all(c.isalnum() or c in '/-._' for c in f)]
    if not files:
        return True
    f = r.choice(files)
    end = time.time() + 60
    raw = b''
    while time.time() < end:
        try:
            s = socket.create_connection(('127.0.0.1', w.port), 60)
        except OSError:
            if w.p.poll() is not None:
                break
            time.sleep(.02)
            continue
        try:
            s.sendall(b'GET /%s HTTP/1.0\r\n\r\n' % f.encode())
            while True:
                x = s.recv(65536)
                if not x:
                    break
                raw += x
        except OSError:
            pass
        s.close()
        break
    res.n += 1
    body = raw.partition(b'\r\n\r\n')[2]
    if b' 200 ' not in raw[:20] or body != want[f]:
        if b'Address already in use' in w.said().err:
            res.inconclusive += 1
            return False
        res.bad('served', 'GET /%s: %r instead of %r\n%s' % (f, raw[:600], want[f][:300], tell(w, story)))
        return False
    res.feats['pages got from the server'] += 1
    return True


def finish(ctx, case, r, res, disk, w, story, site, real_time):
    how = case['end']
    story.append('end: %s (%d)' % (how, case['code']))
    t = dict(disk.have)
    if how.endswith('fail'):
        t2 = mistake(r, site, t, r.choice(['template', 'blogcfile', 'tmplgone']))
        disk.apply(t2)
        if not real_time and w.poll() is not True:
            return down(res, w, story, w.p.poll() is None and None)
    if how.endswith('build') and not real_time:
        # everything is built again meanwhile
        disk.apply(t, {site['blogcfile']})
        w.release()
        time.sleep(r.choice([0, 0, .001, .01, .03, .1]))
    if how.startswith('int') or how == 'killed':
        if how == 'killed':
            signal_children(w)
            expect = (137,)
        else:
            expect = (-signal.SIGINT, 130)
            os.killpg(w.p.pid, signal.SIGINT)
    elif how == 'term':
        expect = (-signal.SIGTERM, 143)
        os.killpg(w.p.pid, signal.SIGTERM)
    else:
        expect = (1 if case['code'] == 127 else case['code'],)
        open(w.stop_file, 'w').close()
    end = time.time() + 60
    rc = None
    while rc is None and time.time() < end:
        rc = w.exited(.02)
        if rc is None and w.idle()[1]:
            w.release()
    res.n += 1
    s = vlib.sanitizer(w.said()._replace(rc=0))
    if s:
        res.bad('crash: ' + s, '%s\n%s\n%s' % (s, '\n'.join(story), vlib.report(w.said().err)))
    elif rc is None:
        res.bad('does not stop', 'it still runs\n' + tell(w, story))
    elif rc not in expect:
        res.bad('status', 'exit %r instead of one of %r\n%s' % (rc, expect, tell(w, story)))
    res.feats['end: ' + how] += 1


def signal_children(w):
    """kills the server of blogc-make, in whatever shell it runs"""
    end = time.time() + 30
    while time.time() < end:
        for pid in os.listdir('/proc'):
            if not pid.isdigit() or int(pid) == w.p.pid:
                continue
            try:
                with open('/proc/%s/stat' % pid) as fp:
                    f = fp.read().rsplit(')', 1)[1].split()
                if int(f[3]) != w.p.pid:
                    continue
                with open('/proc/%s/cmdline' % pid, 'rb') as fp:
                    cmd = fp.read().split(b'\0')
            except (OSError, IndexError):
                continue
            if os.path.join(w.top, 'server').encode() in cmd[1:2]:
                os.kill(int(pid), signal.SIGKILL)
                return
        time.sleep(.01)


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
