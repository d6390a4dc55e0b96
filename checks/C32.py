"""C32: blogc-make, blogc-runserver and blogc-git-receiver never corrupt memory, crash or hang on any input."""
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import C01  # noqa: E402
import receiver  # noqa: E402
import sitegen  # noqa: E402
import vbuild  # noqa: E402
import vlib  # noqa: E402

PID = 'C32'
VARIANTS = ('asan', 'plain', 'msan', 'fuzz')
HARNESSES = {'fuzz': ['fuzz_conf']}
MODES = 'imsphr'
NF = {'quick': 16, 'thorough': 64}
COUNT = {'quick': 16 + 900, 'thorough': 64 + 60000}
RULE = ('(1) libFuzzer on the INI parser, the settings of blogc-make, the commands and refs of blogc-git-receiver, the line reader of '
        'blogc-runserver and rule arguments; (2) blogc-make on sites whose files were cut, spliced and changed, odd file types, command lines and '
        'environments; (3) starting blogc-runserver with odd options; (4) the hooks and the shell of blogc-git-receiver with odd input, '
        'configuration, environment and file trees; under AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer; all as a user '
        'without privileges; distinct = inputs that reached new code in (1), different inputs otherwise')
MIN_DISTINCT = 2000
ASSUMPTIONS = ['memory is not exhausted; leaks at exit are not violations']
INI = ['[global]\n', '[settings]\n', '[posts]\n', '[pages]\n', '[copy]\n', '[tags]\n', '[', ']', '[]\n', '=', ' = ', '"', '\\', '\\"', '\\n', '#', ';', '\n', '\r\n', '\r', '\t', ' ', '\n\n',
       'AUTHOR_NAME = x\n', 'a=b\n', 'a=\n', '=b\n', '"a b"\n', '"', "'", 'é', '日本', '\x00', '\ufeff', 'posts_per_page = -1\n', 'posts_per_page = 99999999999999999999\n', 'atom_posts_per_page = 0\n',
       'html_ext = \n', 'html_ext = /\n', 'html_ext = .\n', 'source_ext = /x/index.txt\n', 'content_dir = \n', 'template_dir = \n', 'main_template = \n', 'atom_template = x\n', 'date_format = %\n',
       'post_prefix = \n', 'blog_prefix = a/b\n', 'listing_entry = \n', 'listing_entry = x\n', 'html_order = x\n', 'posts_sort = yes\n', 'index\n', '.\n', '/\n', 'a//b\n', '...\n', '*\n', '$(x)\n',
       'pagination_prefix = \n', 'atom_legacy_entry_id = 1\n', 'run_from_make = 1\n', 'tag_prefix = "\n', 'A' * 300, '/' * 300, 'x/' * 300, '[repo:x.git]\n', 'symlink = ', 'mirror = ', 'symlink = /\n', 'symlink = \n']
CONF_DICT = [f for f in INI if '\0' not in f and len(f) < 30] + ['refs/heads/master', 'git-receive-pack ', "git-upload-pack '", "'\\''", 'git-upload-archive ', 'host=', ',', ':', '%20', '%zz', '%', '0' * 40 + ' ']


def gen(rng, i, tier):
    if i < NF[tier]:
        return {'kind': 'fuzz', 'mode': MODES[i % len(MODES)], 'seed': rng.randrange(1 << 31), 'runs': 60000 if tier == 'quick' else 4000000, 'len': rng.choice([60, 300, 1500])}
    return {'kind': ['make', 'make', 'hook', 'make', 'hook', 'server'][i % 6], 'seed': rng.randrange(1 << 40)}


def worker_init(ctx):
    """copies of the programs where the other user can run them"""
    d = os.path.join(ctx.dir, 'prog')
    for v in ('asan', 'msan', 'plain'):
        os.makedirs(os.path.join(d, v))
        for t in ('blogc', 'blogc-make', 'blogc-git-receiver', 'blogc-runserver'):
            shutil.copy(os.path.join(ctx.b[v], t), os.path.join(d, v, t))
            os.chmod(os.path.join(d, v, t), 0o755)
        os.chmod(os.path.join(d, v), 0o755)
    for p in (os.path.dirname(os.path.dirname(d)), ctx.dir, d):
        os.chmod(p, 0o755)
    ctx.prog = d


def run_case(ctx, case):
    res = vlib.Res()
    {'fuzz': fuzz, 'make': make, 'hook': hook, 'server': server}[case['kind']](ctx, case, res)
    if res.sample is None and case['kind'] != 'fuzz':
        res.sample = case
    return res


def run(cmd, stdin=b'', env=None, cwd=None, timeout=30, stop=None):
    """as the other user; stop: a text on standard error after which it has started well and is killed"""
    for t in (timeout, timeout * 6):
        try:
            p = subprocess.Popen([c.encode('utf-8', 'surrogateescape') for c in cmd[1:]], executable=cmd[0], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                 env=env, cwd=cwd, start_new_session=True, preexec_fn=receiver.drop)
        except OSError:
            return None
        if stop:
            end = time.time() + t
            os.set_blocking(p.stderr.fileno(), False)
            err = b''
            while time.time() < end and p.poll() is None:
                err += p.stderr.read() or b''
                if stop in err:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.communicate()
                    return vlib.R(0, b'', err, False)
                time.sleep(.005)
            if p.poll() is not None:
                err += p.stderr.read() or b''
                out = p.stdout.read()
                p.stdin.close()
                return vlib.R(p.returncode, out, err, False)
        else:
            try:
                out, err = p.communicate(stdin, timeout=t)
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                return vlib.R(p.returncode, out, err, False)
            except subprocess.TimeoutExpired:
                pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.communicate()
    return vlib.R(None, b'', b'', True)


def ordinary(res, p, what, ok=(0, 1, 2, 3, 78)):
    res.n += 1
    if p is None:
        return True
    res.feats['%s: exit %s' % (what.split()[0], p.rc)] += 1
    if res.crash(p, what):
        return False
    if p.rc not in ok:
        res.bad('exit status', 'exit %r: %s\n%s' % (p.rc, what, p.err[-600:]))
        return False
    return True


# ---------------------------------------------------------------- fuzzing

def corpus(r, mode, d):
    os.makedirs(d)
    for k in range(50):
        if mode in 'im':
            site = sitegen.generate(r, small=True)
            s = sitegen.blogcfile(site, r)
            if mode == 'i' and r.random() < .5:
                s = mutate(r, s, [s])
        elif mode == 's':
            s = r.choice(['git-receive-pack', 'git-upload-pack', 'git-upload-archive']) + ' ' + r.choice(["'a.git'", "'/a/b.git'", "'it'\\''s'", "'a'\\!'b'", "\\'", "'..'"])
        elif mode == 'p':
            s = ''.join('%s %s %s\n' % ('0' * 40, '%040x' % r.randrange(1 << 160), r.choice(['refs/heads/master', 'refs/heads/main', 'refs/tags/x'])) for _ in range(r.randrange(4)))
        elif mode == 'h':
            s = r.choice(['GET / HTTP/1.1\r\n', 'GET /a%20b.html HTTP/1.0\n', '/x%', '/a.b/c', '.', '%00', 'a\0b', '/' * 2000])
        else:
            s = r.choice([':a=b', ':host=1,port=2', ':=', ':a', ':a=,b=,c', 'x', ':a=b,', ':,='])
        with open('%s/%d' % (d, k), 'wb') as fp:
            fp.write(s.encode('utf-8', 'surrogateescape'))


def fuzz(ctx, case, res):
    r = random.Random(case['seed'])
    d = ctx.fresh('fuzz')
    corpus(r, case['mode'], d + '/in')
    os.makedirs(d + '/out')
    with open(d + '/dict', 'w') as fp:
        for f in CONF_DICT:
            fp.write('"%s"\n' % ''.join('\\x%02x' % b for b in f.encode()))
    exe = os.path.join(ctx.b['fuzz'], 'fuzz_conf')
    p = vlib.run([exe, '-seed=%d' % (case['seed'] % 2 ** 31 or 1), '-runs=%d' % case['runs'], '-max_len=%d' % case['len'], '-dict=' + d + '/dict',
                  '-timeout=30', '-rss_limit_mb=3000', '-print_final_stats=1', '-detect_leaks=0', '-artifact_prefix=' + d + '/crash-', d + '/out', d + '/in'],
                 env=vlib.base_env(FUZZ_MODE=case['mode']), cwd=d, timeout=240 if case['runs'] < 10 ** 6 else 1800, retry=False)
    if p.timed_out:
        res.inconclusive += 1
        return
    bad = [f for f in os.listdir(d) if f.startswith('crash-')]
    if bad or p.rc != 0:
        data = b''
        if bad:
            with open(d + '/' + bad[0], 'rb') as fp:
                data = fp.read()
        t = p.err.decode('utf-8', 'replace')
        m = re.search('ERROR: (AddressSanitizer|libFuzzer): [^\n]*|runtime error: [^\n]*', t)
        res.bad('crash: ' + (vlib.sanitizer(p) or 'x'), 'fuzzing mode %s: %s\ninput %r\n%s' % (case['mode'], m.group(0) if m else 'exit %r' % p.rc, data[:2000],
                                                                                           t[m.start():m.start() + 1500] if m else t[-1500:]))
        return
    m = re.search(rb'number_of_executed_units: (\d+)', p.err)
    res.n += int(m.group(1)) if m else 0
    res.feats['inputs fuzzed in mode ' + case['mode']] += int(m.group(1)) if m else 0
    m = re.findall(rb'cov: (\d+)', p.err)
    if m:
        res.feats['edges covered, mode %s, sum over runs' % case['mode']] += int(m[-1])
    for f in os.listdir(d + '/out'):
        res.sig(case['mode'], f)
    shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- blogc-make

def mutate(r, s, pool):
    for _ in range(r.choice([1, 1, 2, 3, 8])):
        k = r.random()
        p = r.randrange(len(s) + 1)
        q = min(len(s), p + r.choice([1, 1, 2, 5, 30]))
        if k < .15:
            s = s[:p]
        elif k < .35:
            s = s[:p] + s[q:]
        elif k < .55:
            s = s[:p] + r.choice(INI) + s[p:]
        elif k < .75:
            # at the start of a line
            p = s.rfind('\n', 0, p) + 1
            s = s[:p] + r.choice(INI) + s[p:]
        elif k < .85:
            s = s[:p] + s[p:q] * r.choice([2, 3, 20]) + s[q:]
        elif k < .97:
            o = r.choice(pool)
            x = r.randrange(len(o) + 1)
            s = s[:p] + o[x:x + r.choice([3, 30, 300])] + s[q:]
        else:
            s = ''.join(r.choice(INI) for _ in range(r.choice([1, 3, 10, 40])))
    # nothing outside the scratch directory
    return re.sub(r'\.\.+', lambda m: '...' if len(m.group(0)) == 2 else m.group(0), s[:20000])


def make(ctx, case, res):
    r = random.Random(case['seed'])
    top = ctx.fresh()
    site = sitegen.generate(r, small=True)
    d = os.path.join(top, 'site')
    pool = [C01.doc(r), C01.template(r)]
    for k in range(4):
        vlib.wipe(d)
        os.mkdir(d)
        t = sitegen.tree(site, r)
        texts = {p: x for p, x in t.items() if isinstance(x, str)}
        what = []
        other = r.choice([0, 0, .03, .12])
        odd = r.choice([0, 0, .02, .06])
        for p, x in sorted(t.items()):
            b = x.encode('utf-8', 'surrogateescape') if isinstance(x, str) else x
            q = os.path.join(d, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            prob = .6 if p == site['blogcfile'] else other
            if r.random() < prob and p in texts:
                if p == site['blogcfile']:
                    y = mutate(r, x, [sitegen.blogcfile(site, r)])
                else:
                    y = C01.mutate(r, x, pool)
                b = y.encode('utf-8', 'surrogateescape')
                if r.random() < .04:
                    b = b[:len(b) // 2] + bytes([r.randrange(256)]) + b[len(b) // 2:]
                if r.random() < .02:
                    b = b + r.choice([b'A' * 200000, b'\n' * 50000, b'[x]\n' * 3000, b'a = b\n' * 3000])
                what.append(p)
            z = r.random() * .06 / odd if odd else 1
            if z < .02:
                what.append(p + ' is a directory')
                os.mkdir(q)
                continue
            if z < .03:
                what.append(p + ' is missing')
                continue
            if z < .04:
                what.append(p + ' is a loop')
                os.symlink(os.path.basename(p), q)
                continue
            with open(q, 'wb') as fp:
                fp.write(b)
            if z < .06:
                what.append(p + ' is unreadable')
                os.chmod(q, 0)
        receiver.own(d)
        dirs = [os.path.join(a, x) for a, b, _ in os.walk(d) for x in b]
        while odd and dirs and r.random() < .2:
            q = r.choice(dirs)
            what.append(q[len(d) + 1:] + ' is closed')
            os.chmod(q, r.choice([0, 0o300, 0o400, 0o500]))
        v = r.choice(['asan', 'asan', 'msan'])
        env = vlib.base_env(BLOGC=os.path.join(ctx.prog, 'plain', 'blogc'), TMPDIR=top)
        z = r.random()
        if z < .05:
            env['BLOGC'] = r.choice(['', '/nonexistent', d, '/bin/false', '/bin/true', '/bin/echo', '/bin/cat', "'", 'x' * 5000, '-'])
        elif z < .1:
            del env['BLOGC']
        z = r.random()
        if z < .4:
            env['OUTPUT_DIR'] = r.choice(['', 'o', d + '/o', 'o/', './/o//', 'x/' * 60, 'y' * 300, './.', site['blogcfile'], 'content', '-o', 'é', "o'", d, d + '/', '.'])
        if r.random() < .05:
            del env['PATH']
        if r.random() < .05:
            env['MAKEFLAGS'] = 'x'
        if r.random() < .1:
            env['LC_ALL'] = r.choice(['C', '', 'xx', 'POSIX'])
        rules = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
            x = r.choice(sitegen.RULES + ['all', 'clean', 'atom_dump'])
            if r.random() < .05:
                x = r.choice(['nosuch', '', ':', ':a=b', x.upper(), x[:-1]])
            if r.random() < .3:
                x += r.choice([':', ':a=b', ':a', '::', ':a=b,c=d', ':=,=', ':host=' + 'x' * 3000, ':a=b,', ':\udcff=é'])
            rules.append(x)
        opts = []
        for _ in range(r.choice([0, 0, 1, 2])):
            opts += r.choice([['-D'], ['-V'], ['-D', '-V']]) if r.random() < .75 else r.choice([['-f'], ['-x'], ['-h'], ['-v'], ['-'], ['-f', 'missing'], ['-f', '/'], ['-f', d], ['-f', ''], ['-f' + site['blogcfile']], ['-m'], ['--']])
        if site['blogcfile'] != 'blogcfile' and r.random() < .95:
            opts += ['-f', site['blogcfile']]
        args = opts + rules
        if r.random() < .5:
            r.shuffle(args)
        exe = os.path.join(ctx.prog, v, 'blogc-make')
        p = run([exe, r.choice([exe, exe, 'blogc-make', '', './blogc-make', 'x/' * 500])] + args, env=env, cwd=d)
        res.sig(case['seed'], k)
        res.feats['blogc-make'] += 1
        blog = os.path.join(d, site['blogcfile'])
        text = b''
        if os.path.isfile(blog):
            with open(blog, 'rb') as fp:
                text = fp.read(3000)
        # 126 and 127 are what the shell says
        if not ordinary(res, p, 'blogc-make %r, OUTPUT_DIR=%r, changed: %r\n%r' % (args, env.get('OUTPUT_DIR'), what, text), (0, 1, 2, 3, 78, 126, 127)):
            return


# ---------------------------------------------------------------- blogc-runserver

def server(ctx, case, res):
    r = random.Random(case['seed'])
    top = ctx.fresh()
    receiver.own(top)
    for k in range(4):
        args = []
        val = {'t': ['127.0.0.1', '::1', 'localhost', '', 'no such host', '256.0.0.1', '1', '*', '\udcff', 'x' * 5000, '0.0.0.0', '::', '127.0.0.1%lo', '-1', '[::1]', '\n'],
               'p': ['0', '0', '0', '-1', '65535999', '99999999999999999999', '', 'http', 'blah', '80 ', ' 0', '0x0', '+0', '\udcff', '0.', 'x' * 5000, '1'],
               'm': ['1', '20', '1000', '1001', '0', '-1', '', 'x', '5x', '99999999999999999999', '-99999999999999999999', ' 3', '18446744073709551615', '0x10']}
        for o in r.sample('tpm', r.choice([0, 1, 2, 3])):
            x = r.choice(val[o])
            args += ['-%s%s' % (o, x)] if r.random() < .5 else ['-' + o, x]
            if r.random() < .05:
                args += ['-' + o]
        if '-p' not in ''.join(args) and r.random() < .9:
            args += ['-p', '0']
        args += r.choice([[], [top], [top], [top], [top + '/missing'], ['.'], [''], [top, top], ['x' * 5000], ['\udcff']])
        if r.random() < .1:
            args.insert(r.randrange(len(args) + 1), r.choice(['-x', '-', '--', '-h', '-v', '-t', '-m', '-p']))
        if r.random() < .3:
            r.shuffle(args)
        env = vlib.base_env()
        if r.random() < .3:
            env['BLOGC_RUNSERVER_DEFAULT_HOST'] = r.choice(val['t'])
        if r.random() < .5:
            env['BLOGC_RUNSERVER_DEFAULT_PORT'] = r.choice(val['p'])
        env.setdefault('BLOGC_RUNSERVER_DEFAULT_PORT', '0')
        exe = os.path.join(ctx.prog, r.choice(['asan', 'msan']), 'blogc-runserver')
        p = run([exe, 'blogc-runserver'] + [a for a in args if '\0' not in a], env=env, cwd=top, stop=b'Running on')
        res.sig(case['seed'], k)
        res.feats['blogc-runserver'] += 1
        if p is not None and b'Running on' in p.err:
            res.feats['blogc-runserver started'] += 1
        if not ordinary(res, p, 'blogc-runserver %r %r' % (args, {k: x for k, x in env.items() if k.startswith('BLOGC')})):
            return


# ---------------------------------------------------------------- blogc-git-receiver

GIT = '''#!/bin/sh
case "$1" in
init) for a; do :; done; mkdir -p "$a"; exit ${G_INIT:-0};;
archive) case ${G_ARCHIVE:-0} in 0) tar -c -C "$G_TREE" -f - .;; 1) exit 1;; 2) echo garbage;; 3) :;; esac;;
config) exit ${G_CONFIG:-1};;
push) exit ${G_PUSH:-0};;
esac
'''
MK = '#!/bin/sh\nif [ "${G_MAKE:-0}" = 0 ]; then for a; do case $a in OUTPUT_DIR=*) mkdir -p "${a#OUTPUT_DIR=}";; esac; done; [ -n "$OUTPUT_DIR" ] && mkdir -p "$OUTPUT_DIR"; exit 0; fi\nexit ${G_MAKE}\n'


def hook(ctx, case, res):
    r = random.Random(case['seed'])
    for k in range(3):
        top = ctx.fresh()
        bd = os.path.join(top, r.choice(['home', 'ho me', "h'", 'é']))
        name = r.choice(['a.git', 'x/y.git', "q'", 'é.git', 'n' * 200, '-x'])
        repo = os.path.join(bd, 'repos', name)
        os.makedirs(os.path.join(repo, 'hooks'))
        b = os.path.join(top, 'bin')
        os.mkdir(b)
        for t in receiver.TOOLS:
            if t.startswith('git') or not shutil.which(t):
                continue
            os.symlink(shutil.which(t), os.path.join(b, t))
        for t, text in (('git', GIT), ('git-shell', '#!/bin/sh\nexit 0\n'), ('make', MK), ('blogc-make', MK)):
            if r.random() < .93:
                with open(os.path.join(b, t), 'w') as fp:
                    fp.write(text)
                os.chmod(os.path.join(b, t), 0o755)
        tree = os.path.join(top, 'tree')
        os.mkdir(tree)
        for f in r.choice([[], ['blogcfile'], ['Makefile'], ['GNUMakefile'], ['blogcfile', 'Makefile']]):
            open(os.path.join(tree, f), 'w').close()
        h = '%040x' % r.randrange(1 << 160)
        conf = '[repo:%s]\n%s\n' % (name, r.choice(['symlink = ' + os.path.join(top, 'www'), 'symlink = www', 'mirror = git@x:y.git', '', 'symlink = ', 'mirror=', 'symlink=/proc/x/y']))
        conf = r.choice(['', '[x]\n', '[repo:other]\na=b\n', '[repo:]\n']) + conf
        if r.random() < .6:
            conf = mutate(r, conf, [conf])
        ini = os.path.join(bd, 'blogc-git-receiver.ini')
        z = r.random()
        if z < .8:
            with open(ini, 'wb') as fp:
                fp.write(conf.encode('utf-8', 'surrogateescape') + (b'\xff' if z < .05 else b''))
        elif z < .85:
            os.mkdir(ini)
        # what was deployed before
        builds = os.path.join(bd, 'builds')
        z = r.random()
        if z < .5:
            old = os.path.join(builds, r.choice([h + '-123-4', h + '-1', 'x', 'a-b', '-', h, 'é-1', '--']))
            os.makedirs(os.path.join(old, 'd' * 200, 'e'))
            os.symlink(old, os.path.join(repo, 'htdocs'))
        elif z < .6:
            os.symlink(r.choice(['htdocs', '/nonexistent', '', '/', builds][0:2] + ['x' * 3000]), os.path.join(repo, 'htdocs'))
        elif z < .65:
            os.mkdir(os.path.join(repo, 'htdocs'))
        v = r.choice(['asan', 'asan', 'msan'])
        recv = os.path.join(ctx.prog, v, 'blogc-git-receiver')
        for t in ('pre-receive', 'post-receive'):
            os.symlink(recv, os.path.join(repo, 'hooks', t))
        if r.random() < .1:
            shutil.rmtree(os.path.join(repo, 'hooks'))
            if r.random() < .5:
                open(os.path.join(repo, 'hooks'), 'w').close()
        receiver.own(top)
        env = vlib.base_env(PATH=b, HOME=bd, SHELL=recv, G_TREE=tree, TMPDIR=top)
        for x, p, vals in (('G_INIT', .1, '1'), ('G_ARCHIVE', .3, '123'), ('G_CONFIG', .2, '0'), ('G_PUSH', .2, '1'), ('G_MAKE', .2, '12')):
            if r.random() < p:
                env[x] = r.choice(vals)
        if r.random() < .2:
            env['BLOGC_GIT_RECEIVER_BASE_DIR'] = r.choice([bd, '', top, '/nonexistent', 'x' * 5000])
        if r.random() < .2:
            env['BLOGC_GIT_RECEIVER_BUILDS_DIR'] = r.choice([top + '/b', '', '.', top + '/b' * 3000, "b'", top + '/é'])
        for x in ('HOME', 'SHELL', 'PATH'):
            if r.random() < .05:
                del env[x]
        how = r.choice(['pre', 'pre', 'pre', 'rebuild', 'post', 'shell', 'shell', 'ssh', 'long', 'odd'])
        stdin = b''
        cwd = repo if os.path.isdir(repo) else top
        if how in ('pre', 'rebuild', 'post'):
            link = os.path.join(repo, 'hooks', 'post-receive' if how == 'post' else 'pre-receive')
            argv = [r.choice([link, link, './hooks/' + os.path.basename(link), 'hooks/' + os.path.basename(link), os.path.basename(link), '/x/' + os.path.basename(link)])]
            if how != 'rebuild':
                env['GIT_DIR'] = '.'
            s = ''.join('%s %s %s\n' % ('%040x' % r.randrange(1 << 160), h, r.choice(['refs/heads/master', 'refs/heads/master', 'refs/heads/main', 'refs/tags/x', 'refs/heads/', 'refs/heads/x' * 200])) for _ in range(r.choice([0, 1, 1, 2, 300])))
            if r.random() < .4:
                z = r.randrange(len(s) + 1)
                s = r.choice([s[:z], s[:z] + s[z + 1:], s + ' ', '\n' + s, s.replace(' ', '  '), s.replace('\n', '\r\n'), s[:z] + '\0' + s[z:], s[:-1], 'x' * 5000 + s, s.replace(h, 'X'), s + '\udcff'])
                # the shell only gets what is made of hexadecimal digits from git
                s = re.sub("[\"$`\\\\;|&<>]", '_', s)
            stdin = s.encode('utf-8', 'surrogateescape')
        else:
            c = r.choice(['git-receive-pack', 'git-receive-pack', 'git-upload-pack', 'git-upload-pack', 'git-upload-archive', 'git-shell', '', 'git-receive-pack ']) + ' ' + "'%s'" % r.choice([name, name, '/' + name, 'new.git', '', '/', 'x' * (4096 - len(bd.encode()) - 9 - r.randrange(-4, 40)), 'y' * 300, 'a/' * 2100, '.', 'a\0b', '!', 'é'])
            if r.random() < .3:
                z = r.randrange(len(c) + 1)
                c = r.choice([c[:z], c[:z] + "'" + c[z:], c[:z] + '\\' + c[z:], c + ' ', c + " 'x'", c.replace("'", '"'), "'" * 300, c[:z] + "'\\''" * 1000])
            c = c.replace('..', '.').replace('\0', '')
            argv = ['blogc-git-receiver', '-c', c]
            if how == 'long':
                # about as long as what it can pass on
                c = r.choice(['git-upload-pack', 'git-upload-archive'])
                base = env.get('BLOGC_GIT_RECEIVER_BASE_DIR', env.get('HOME', ''))
                c += " '%s'" % ('z' * max(1, 4096 - len(c) - len(base.encode()) - 3 * base.count("'") - len('/repos/') - 4 + r.choice([-3, -2, -1, 0, 1, 2, 3, 10, 18, 19, 20])))
                argv = ['x', '-c', c]
            elif how == 'ssh':
                env['SSH_ORIGINAL_COMMAND'] = c
                argv = [r.choice([recv, 'blogc-git-receiver'])]
            elif how == 'odd':
                argv = r.choice([['x'], [''], ['x', '-c'], ['x', '-c', '', ''], ['pre-receive'], ['post-receive', 'x'], ['/'], ['pre-receive/'], ['x', '-x', 'y'], ['/pre-receive'], ['/'] * 3, ['x', '-c', ''], ['x' * 9000]])
        p = run([recv] + argv, stdin, env=env, cwd=cwd)
        res.sig(case['seed'], k)
        res.feats['blogc-git-receiver: ' + how] += 1
        if not ordinary(res, p, 'blogc-git-receiver %r\nstdin %r\nconfiguration %r\nenvironment %r' % (
                [a[:300] for a in argv], stdin[:500], conf[:600], {k: x[:200] for k, x in env.items() if k.startswith('G_') or k.startswith('BLOGC') or k in ('HOME', 'SHELL')}), (0, 1, 2, 3, 78, 126, 127, 128, 129)):
            # the last of these are of git, which it becomes
            return


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
