"""Runner shared by all checks: seeded case generation, parallel execution,
sanitizer-aware process running, shrinking, replay, known findings, evidence."""
import collections
import ctypes
import hashlib
import json
import multiprocessing
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild  # noqa: E402

VERIF = vbuild.VERIF
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1

SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=99',
    'MSAN_OPTIONS': 'exitcode=97',
    'TSAN_OPTIONS': 'exitcode=98:halt_on_error=0',
}


def base_env(**kw):
    env = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
           'HOME': '/nonexistent', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC'}
    env.update(SAN_ENV)
    env.update(kw)
    return {k: v for k, v in env.items() if v is not None}


R = collections.namedtuple('R', 'rc out err timed_out')
_libc = ctypes.CDLL(None)


def die_with_parent():
    """preexec_fn of the programs that run on: they end with the check"""
    _libc.prctl(1, signal.SIGKILL)


def run(cmd, stdin=None, env=None, cwd=None, timeout=30, retry=True):
    """Runs a program; a timeout is retried once with six times the limit."""
    for t in ((timeout, timeout * 6) if retry else (timeout,)):
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env=env if env is not None else base_env(), cwd=cwd, start_new_session=True)
        try:
            out, err = p.communicate(stdin, timeout=t)
            if p.returncode == -signal.SIGKILL and retry and t == timeout:
                # nobody here did that: the system ran out of memory
                time.sleep(.5)
                continue
            return R(p.returncode, out, err, False)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.communicate()
    return R(None, b'', b'', True)


SAN_RE = re.compile(rb'ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)|WARNING: (?:Thread|Memory)Sanitizer: ([\w -]+)'
                    rb'|runtime error: ([^\n]*)|AddressSanitizer:(DEADLYSIGNAL)')
FRAME_RE = re.compile(rb'#\d+ 0x[0-9a-f]+ in (\w+) [^\n]*/src/([\w./-]+\.c)')


def sanitizer(r):
    """A short description of the sanitizer report or crash in r, or None."""
    if r.timed_out:
        return None
    m = SAN_RE.search(r.err)
    if m:
        kind = next(g for g in m.groups()[1:] if g) if m.lastindex else b'report'
        f = FRAME_RE.search(r.err[m.start():])
        where = (f.group(1) + b'@' + f.group(2)).decode() if f else '?'
        return '%s in %s' % (kind.decode('utf-8', 'replace')[:80], where)
    if r.rc is not None and r.rc < 0:
        return 'killed by signal %d' % -r.rc
    if r.rc in (97, 98, 99):
        return 'sanitizer exit %d' % r.rc
    return None


def report(err):
    """The interesting part of a sanitizer report."""
    m = SAN_RE.search(err)
    t = err[m.start():m.start() + 1100] if m else err[-1100:]
    return t.decode('utf-8', 'replace')


class Res:
    """What one case observed."""

    def __init__(self):
        self.n = 0                  # evaluations
        self.sigs = set()           # signatures of distinct non-trivial evaluations
        self.feats = collections.Counter()
        self.viol = []              # (key, message)
        self.sample = None
        self.inconclusive = 0

    def bad(self, key, msg):
        self.viol.append((key, msg))

    def sig(self, *parts):
        self.sigs.add(hashlib.md5(repr(parts).encode('utf-8', 'surrogateescape')).hexdigest()[:16])

    def crash(self, r, what=''):
        """Records crash/sanitizer/hang of a run; True if there was one."""
        if r.timed_out:
            self.bad('hang', 'did not terminate (%s)' % what)
            return True
        s = sanitizer(r)
        if s:
            self.bad('crash: ' + s, '%s: %s\n%s' % (what, s, report(r.err)))
            return True
        return False


class Ctx:
    """Per-worker context handed to run_case."""

    def __init__(self, build, scratch):
        self.b = build              # dict variant -> directory
        self.dir = scratch

    def asan(self, prog):
        return os.path.join(self.b['asan'], prog)

    def tsan(self, prog):
        return os.path.join(self.b['tsan'], prog)

    def msan(self, prog):
        return os.path.join(self.b['msan'], prog)

    def plain(self, prog):
        return os.path.join(self.b['plain'], prog)

    def fresh(self, name='w'):
        d = os.path.join(self.dir, name)
        wipe(d)
        os.makedirs(d)
        return d


def wipe(path):
    """Removes a scratch tree, also with odd permissions inside."""
    if not os.path.lexists(path):
        return
    assert path.startswith(SCRATCH_ROOT + '/'), path
    if os.path.islink(path) or not os.path.isdir(path):
        os.unlink(path)
        return
    for root, dirs, files in os.walk(path):
        for d in dirs:
            p = os.path.join(root, d)
            if not os.path.islink(p):
                try:
                    os.chmod(p, 0o700)
                except OSError:
                    pass
    _rmtree(path)


def _rmtree(path):
    try:
        shutil.rmtree(path, ignore_errors=True)
    except RecursionError:
        pass
    if os.path.lexists(path):        # deeper than Python can go
        assert path.startswith(SCRATCH_ROOT), path
        subprocess.run(['rm', '-rf', '--', path], stderr=subprocess.DEVNULL)


SCRATCH_ROOT = None


def _scratch_root():
    global SCRATCH_ROOT
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) and os.statvfs('/dev/shm').f_bavail * \
        os.statvfs('/dev/shm').f_frsize > 1 << 30 else tempfile.gettempdir()
    SCRATCH_ROOT = tempfile.mkdtemp(prefix='vchk-', dir=base)
    return SCRATCH_ROOT


class Known:
    """known-findings.txt: lines
         known: property=C01 key=<key> :: <description>
         fixed: property=C01 <commit> <what failed>
       Only 'known:' lines suppress, and only a violation with exactly that key."""

    def __init__(self, pid):
        self.keys = {}
        path = os.path.join(VERIF, 'known-findings.txt')
        if os.path.exists(path):
            with open(path, encoding='utf-8') as fp:
                for line in fp:
                    m = re.match(r'known: property=(\w+) key=(.*?) :: (.*)$', line.rstrip('\n'))
                    if m and m.group(1) == pid:
                        self.keys[m.group(2)] = m.group(3)


def _worker(args):
    mod, build, scratch, wid, nworkers, total, deadline, q = args
    os.environ.pop('MAKEFLAGS', None)
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    ctx = Ctx(build, os.path.join(scratch, 'w%d' % wid))
    os.makedirs(ctx.dir, exist_ok=True)
    ctx.wid = wid
    try:
        if hasattr(mod, 'worker_init'):
            mod.worker_init(ctx)
        for i in range(wid, total, nworkers):
            if time.time() > deadline:
                q.put(('capped', i, None, None))
                break
            rng = random.Random('%d/%s/%d' % (SEED, mod.PID, i))
            case = mod.gen(rng, i, TIER)
            res = mod.run_case(ctx, case)
            if res.viol and 'killed by signal 9' in res.viol[0][0]:
                # nobody here did that: the system ran out of memory
                for f in ('worker_exit', 'worker_init'):
                    if hasattr(mod, f):
                        getattr(mod, f)(ctx)
                res = mod.run_case(ctx, case)
            if res.viol:
                # report before anything else; the parent shrinks
                q.put(('viol', i, case, res))
            else:
                q.put(('ok', i, case if i < 40 else None, res))
    except BaseException:
        q.put(('error', wid, None, traceback.format_exc()))
    finally:
        try:
            if hasattr(mod, 'worker_exit'):
                mod.worker_exit(ctx)
        except BaseException:
            pass
        q.put(('done', wid, None, None))
        # do not wait for anything a case left behind
        q.close()
        q.join_thread()


def save_replay(pid, case, viol):
    d = os.path.join(VERIF, 'replay', pid)
    os.makedirs(d, exist_ok=True)
    name = hashlib.sha256(json.dumps(case, sort_keys=True, default=repr).encode()).hexdigest()[:12] + '.json'
    path = os.path.join(d, name)
    with open(path, 'w') as fp:
        json.dump({'property': pid, 'case': case, 'violations': viol,
                   'rerun': 'python3 checks/%s.py --replay %s' % (pid, path)}, fp, indent=1)
    return path


def main(mod):
    pid = mod.PID
    t0 = time.time()
    try:
        builds = {v: vbuild.build(v, getattr(mod, 'HARNESSES', {}).get(v, ())) for v in getattr(mod, 'VARIANTS', ('asan',))}
    except vbuild.BuildError as e:
        print('build failed: %s' % e, file=sys.stderr)
        sys.exit(3)
    scratch = _scratch_root()
    rc = 3
    try:
        rc = _main(mod, pid, t0, builds, scratch)
    finally:
        try:
            if hasattr(mod, 'cleanup'):
                mod.cleanup()
        finally:
            for root, dirs, files in os.walk(scratch):
                for d in dirs:
                    p = os.path.join(root, d)
                    if not os.path.islink(p):
                        try:
                            os.chmod(p, 0o700)
                        except OSError:
                            pass
            _rmtree(scratch)
    sys.stdout.flush()
    sys.exit(rc)


def _main(mod, pid, t0, builds, scratch):
    known = Known(pid)
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        with open(sys.argv[2]) as fp:
            case = json.load(fp)['case']
        ctx = Ctx(builds, os.path.join(scratch, 'r'))
        ctx.wid = 0
        os.makedirs(ctx.dir)
        if hasattr(mod, 'worker_init'):
            mod.worker_init(ctx)
        res = mod.run_case(ctx, case)
        if hasattr(mod, 'worker_exit'):
            mod.worker_exit(ctx)
        for k, m in res.viol:
            print('[%s] %s' % (k, m))
        if res.viol:
            print('VIOLATION property=%s replay=%s' % (pid, sys.argv[2]))
            return 1
        print('replay: held')
        return 0

    total = mod.COUNT[TIER]
    nworkers = min(getattr(mod, 'WORKERS', os.cpu_count() or 4), max(1, total))
    cap = getattr(mod, 'CAP', {'quick': 150, 'thorough': 3000})[TIER]
    deadline = time.time() + cap
    mp = multiprocessing.get_context('fork')
    q = mp.Queue()
    procs = [mp.Process(target=_worker, args=((mod, builds, scratch, w, nworkers, total, deadline, q),), daemon=False)
             for w in range(nworkers)]
    for p in procs:
        p.start()
    n = 0
    cases = 0
    sigs = set()
    feats = collections.Counter()
    samples = []
    viols = []
    errors = []
    capped = False
    inconclusive = 0
    known_hit = collections.Counter()
    done = 0
    new_keys = set()
    while done < nworkers:
        try:
            kind, i, case, res = q.get(timeout=5)
        except Exception:
            if not any(p.is_alive() for p in procs):
                # give the queue one last chance
                try:
                    kind, i, case, res = q.get(timeout=2)
                except Exception:
                    errors.append('a worker died without finishing')
                    break
            else:
                continue
        if kind == 'done':
            done += 1
            continue
        if kind == 'capped':
            capped = True
            continue
        if kind == 'error':
            errors.append(res)
            continue
        cases += 1
        n += res.n
        sigs |= res.sigs
        feats.update(res.feats)
        inconclusive += res.inconclusive
        if len(samples) < 3 and res.sample is not None:
            samples.append(res.sample)
        if kind == 'viol':
            fresh = []
            for k, m in res.viol:
                if k in known.keys:
                    known_hit[k] += 1
                else:
                    fresh.append((k, m))
            if fresh:
                viols.append((i, case, fresh))
                new_keys.add(fresh[0][0])
                # enough witnesses: stop the workers
                if len(viols) >= int(os.environ.get('VERIF_MAXVIOL') or getattr(mod, 'MAXVIOL', 8)):
                    deadline = 0
                    for p in procs:
                        p.terminate()
                    break
    for p in procs:
        p.join(10)
        if p.is_alive():
            p.kill()
            p.join()

    # every listed finding is exhibited on its own case
    kf_dir = os.path.join(VERIF, 'known')
    ctx = Ctx(builds, os.path.join(scratch, 'k'))
    ctx.wid = 0
    os.makedirs(ctx.dir, exist_ok=True)
    if known.keys:
        if hasattr(mod, 'worker_init'):
            mod.worker_init(ctx)
        for f in sorted(os.listdir(kf_dir)) if os.path.isdir(kf_dir) else ():
            if not f.startswith(pid + '-'):
                continue
            with open(os.path.join(kf_dir, f)) as fp:
                case = json.load(fp)['case']
            res = mod.run_case(ctx, case)
            for k, m in res.viol:
                if k in known.keys:
                    known_hit[k] += 1
                else:
                    viols.append((-1, case, [(k, m)]))
        if hasattr(mod, 'worker_exit'):
            mod.worker_exit(ctx)
    for k in sorted(known_hit):
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, known.keys[k], k))

    # shrink the first violation for a readable witness
    paths = []
    if viols:
        ctx = Ctx(builds, os.path.join(scratch, 's'))
        ctx.wid = 0
        os.makedirs(ctx.dir, exist_ok=True)
        viols.sort(key=lambda v: v[0])
        if hasattr(mod, 'worker_init'):
            mod.worker_init(ctx)
        limit = time.time() + 25
        for idx, (i, case, v) in enumerate(viols[:3]):
            if idx == 0 and hasattr(mod, 'shrink') and not os.environ.get('VERIF_NOSHRINK'):
                key = v[0][0]
                progress = True
                while progress and time.time() < limit:
                    progress = False
                    for c2 in mod.shrink(case):
                        if time.time() > limit:
                            break
                        try:
                            r2 = mod.run_case(ctx, c2)
                        except Exception:
                            continue
                        m2 = [x for x in r2.viol if x[0] == key]
                        if m2:
                            case, v, progress = c2, m2, True
                            break
            paths.append(save_replay(pid, case, v))
            print('--- violation (case %d): %s' % (i, v[0][0]))
            print('\n'.join(str(m)[:3500] for _, m in v[:2]))
        if hasattr(mod, 'worker_exit'):
            mod.worker_exit(ctx)

    cov = {
        'evaluations': n,
        'distinct_nontrivial': len(sigs),
        'rule': mod.RULE,
        'samples': samples or ['(none)'],
        'cases': cases,
        'observed': dict(sorted(feats.items())),
        'inconclusive': inconclusive,
        'stopped_by_time_cap': capped,
    }
    if hasattr(mod, 'extra_coverage'):
        cov.update(mod.extra_coverage())
    ev = {
        'property': pid, 'tier': TIER, 'seed': SEED, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': cov,
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viols),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1, default=repr)
        fp.write('\n')

    print('%s: %d evaluations in %d cases, %d distinct non-trivial, %d inconclusive, %.1f s%s' % (
        pid, n, cases, len(sigs), inconclusive, time.time() - t0, ' (time cap)' if capped else ''))
    if viols:
        print('VIOLATION property=%s replay=%s' % (pid, paths[0]))
        return 1
    if errors:
        print('check error:\n' + '\n'.join(errors), file=sys.stderr)
        return 3
    minimum = getattr(mod, 'MIN_DISTINCT', 1)
    if len(sigs) < minimum:
        print('check error: only %d distinct observations (expected at least %d)' % (len(sigs), minimum), file=sys.stderr)
        return 3
    return 0
