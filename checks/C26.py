"""C26: the git shell runs only the three git commands, only below repos."""
import os
import re
import stat
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib  # noqa: E402

PID = 'C26'
VARIANTS = ('asan', 'plain')
HARNESSES = {'plain': ['stub']}
COUNT = {'quick': 5000, 'thorough': 90000}
RULE = ('command strings (quoted repository names as git writes them, hostile names, mutations of both, garbage) given with '
        '-c or SSH_ORIGINAL_COMMAND to the real program with a PATH of recorders; every executed program and every change of '
        'the file tree is compared with what one git-shell on one repository inside repos allows; distinct = different '
        'command, outcome')
MIN_DISTINCT = 1500
ASSUMPTIONS = ['git-shell splits its argument as sq_dequote does', 'symbolic links below repos belong to the administrator']
CMDS = ['git-receive-pack', 'git-upload-pack', 'git-upload-archive']
PROGS = ['git', 'git-shell', 'touch', 'id', 'sh', 'git-receive-pack', 'git-upload-pack', 'git-upload-archive', 'ls', 'true', 'mkdir', 'evil']
PIECES = ['repo', 'repo.git', 'a', 'user', 'über', '日本', 'with space', "it's", 'a!b', '!', '$(touch pwned)', '`touch pwned`', '$HOME', '-c', '--help',
          ';touch pwned', '|touch pwned', '&', '>pwned', '"', '\\', '\n', '\t', '~', '*', '%s%n', '...', '..a', 'a..', '.git', '#', '\x01', '\x7f', "''", "\\'",
          '..', '.', '', 'x' * 200, 'hooks', '{a,b}', '..\\', ' ..', '.. ']


def gen(rng, i, tier):
    return {'seed': rng.randrange(1 << 40)}


def sq(name):
    """as git quotes (sq_quote_buf)"""
    return "'" + ''.join("'\\" + c + "'" if c in "'!" else c for c in name) + "'"


def esc(r, name):
    """another spelling of the same name"""
    out = ''
    inq = False
    for c in name:
        if c in "'!" and (c == "'" or r.random() < .5):
            if inq:
                out += "'"
                inq = False
            out += '\\' + c
        else:
            if not inq:
                out += "'"
                inq = True
            out += c
            if r.random() < .05:
                out += "'"
                inq = False
    return out + "'" * inq


MODEL = re.compile(r"(git-receive-pack|git-upload-pack|git-upload-archive) ((?:'[^']*'|\\!|\\')+)", re.S)


def words(text):
    """sq_dequote to a list: None when malformed"""
    res, k = [], 0
    while k < len(text):
        if res and text[k] == ' ':
            k += 1
        cur, any_ = '', False
        while k < len(text) and text[k] != ' ':
            if text[k] == "'":
                e = text.find("'", k + 1)
                if e < 0:
                    return None
                cur += text[k + 1:e]
                k = e + 1
            elif text[k] == '\\' and k + 1 < len(text):
                cur += text[k + 1]
                k += 2
            else:
                return None
            any_ = True
        if not any_:
            return None
        res.append(cur)
    return res


def snapshot(root):
    out = {}
    for d, dirs, files in os.walk(root):
        for f in dirs + files:
            p = os.path.join(d, f)
            st = os.lstat(p)
            k = os.path.relpath(p, root)
            if stat.S_ISLNK(st.st_mode):
                out[k] = ('link', os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                out[k] = ('dir',)
            else:
                with open(p, 'rb') as fp:
                    out[k] = ('file', fp.read())
    return out


def command(r):
    """(command, must be accepted)"""
    x = r.random()
    npiece = r.choice([1, 1, 1, 2, 2, 3, 5, 20])
    pool = PIECES[:12] if r.random() < .4 else PIECES
    name = '/'.join(''.join(r.choice(pool) for _ in range(r.choice([1, 1, 1, 2]))) for _ in range(npiece))
    while name.count('..') > 8:      # a broken implementation must not leave the scratch directory
        name = name.replace('..', 'up', 1)
    if r.random() < .3:
        name = '/' + name
    if r.random() < .1:
        name = r.choice(['/', './', '~/', '//', '']) + name + r.choice(['/', '', '/.'])
    if r.random() < .03:
        name = '/'.join(['d' * r.choice([1, 50, 200])] * r.choice([15, 19, 20, 21, 24])) + '/x' * r.choice([0, 20, 40, 50])
    cmd = r.choice(CMDS)
    if x < .45:
        return cmd + ' ' + sq(name)
    if x < .6:
        return cmd + ' ' + esc(r, name)
    if x < .7:
        return r.choice([cmd[:-1], cmd + 'x', cmd.upper(), 'git ' + cmd[4:], ' ' + cmd, cmd + ' ', '/usr/bin/' + cmd, cmd + '\t', 'git-shell', 'sh', 'scp', '',
                         cmd + "'a'", 'git-receive-pac\0'[:15], 'git-upload-packs', 'git-receive-pack;', 'git-upload-archivf', 'git-receive-pa', 'git-upload-']) + r.choice([' ', ' ', '']) + sq(name)
    if x < .76:
        return cmd + ' ' + r.choice([name, '"' + name + '"', sq(name) + ' ' + sq('second'), sq(name) + ';touch pwned', sq(name) + '`touch pwned`', '-c ' + sq(name), sq(name) + ' ',
                                     sq(name) + '\n', sq(name)[:-1], sq(name) + "'", sq(name) + '\\', '\\' + sq(name), "'" * r.randrange(8), '\\!' * 3, "\\'", '', ' ', sq(name) + "'..'", sq('..') + "'/x'", "'.'\\!'./x'", "''", "'/'", "'.'", "'./.'", "'../x'", "'x/..'"])
    base = cmd + ' ' + sq(name)
    for _ in range(r.choice([1, 1, 2, 4])):
        k = r.randrange(len(base) + 1)
        c = r.choice(["'", '\\', '!', ' ', '/', '.', '..', ';', '$', '\n', 'a', '"', "'\\''", "''", "' '"])
        m = r.random()
        base = base[:k] + c + base[k:] if m < .5 else base[:k] + base[k + 1:] if m < .8 else base[:k] + c + base[k + 1:]
    return base


def run_case(ctx, case):
    import random
    res = vlib.Res()
    for sub in range(3):
        r = random.Random(case['seed'] * 4 + sub)
        one(ctx, r, res)
        if res.viol:
            break
    return res


def one(ctx, r, res):
    top = ctx.fresh()
    # deep enough for every '..' of a broken implementation to stay inside
    tree = os.path.join(top, 't', *'abcdefgh')
    bdname = r.choice(['home', 'home', 'ho me', "h'o", 'h!', '$(touch pwned)', 'hö', 'h"', 'h\\', ';touch pwned', '-x'])
    bd = os.path.join(tree, bdname)
    os.makedirs(os.path.join(bd, 'repos'))
    bin_ = os.path.join(top, 'bin')
    os.makedirs(bin_)
    for p in PROGS:
        os.symlink(os.path.join(ctx.b['plain'], 'stub'), os.path.join(bin_, p))
    log = os.path.join(top, 'log')
    for k in ('secret', 'repos.git', 'reposx/r'):
        p = os.path.join(bd, k)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as fp:
            fp.write('secret')
    with open(os.path.join(tree, 'above'), 'w') as fp:
        fp.write('above')
    text = command(r).replace('\0', '')
    m = MODEL.fullmatch(text)
    name = None
    if m:
        name = ''.join(a or b[1:] for a, b in re.findall(r"'([^']*)'|(\\.)", m.group(2)))
        parts = name.split('/')
        if '..' in parts or not [p for p in parts if p not in ('', '.')]:
            name = None
    # quoting exactly as git does, nothing special about the name
    plain = m is not None and name is not None and m.group(2) == sq(name)
    repo = os.path.normpath(os.path.join(bd, 'repos', name.lstrip('/'))) if name is not None else None
    long_ = repo is not None and (len(sq(repo).encode()) > 3900 or any(len(p.encode()) > 255 for p in repo.split('/')))
    # the state of the repository
    state = r.choice(['none', 'none', 'dir', 'dir', 'nohooks', 'oldhooks', 'hookfile', 'hookdir', 'file', 'elsewhere'])
    if repo is None or long_:
        state = 'none'
    try:
        if state != 'none':
            os.makedirs(os.path.dirname(repo), exist_ok=True)
        if state == 'file':
            open(repo, 'w').close()
        elif state == 'elsewhere':
            os.makedirs(os.path.join(bd, 'away'))
            os.symlink(os.path.join(bd, 'away'), repo)
        elif state != 'none':
            os.makedirs(repo)
            h = os.path.join(repo, 'hooks')
            if state == 'hookfile':
                open(h, 'w').close()
            elif state != 'nohooks':
                os.makedirs(h)
                with open(os.path.join(h, 'update'), 'w') as fp:
                    fp.write('mine')
                if state == 'oldhooks':
                    for k in ('pre-receive', 'post-receive'):
                        x = r.choice(['dangling', 'file', 'link', 'none'])
                        if x == 'file':
                            with open(os.path.join(h, k), 'w') as fp:
                                fp.write('#!/bin/sh\n')
                        elif x != 'none':
                            os.symlink({'dangling': '/nonexistent/old', 'link': '/bin/true'}[x], os.path.join(h, k))
                if state == 'hookdir':
                    os.makedirs(os.path.join(h, r.choice(['pre-receive', 'post-receive']), 'keep'))
    except (FileExistsError, NotADirectoryError):
        return
    env = vlib.base_env(PATH=bin_, HOME=bd, STUB_LOG=log)
    shell = r.choice(['/usr/bin/blogc-git-receiver', '/opt/a b/$(x)', "/o'", 'rel/shell'])
    env['SHELL'] = shell
    exe = ctx.asan('blogc-git-receiver')
    broken_env = None
    x = r.random()
    if x < .15:
        env['BLOGC_GIT_RECEIVER_BASE_DIR'] = bd
        if r.random() < .5:
            env['HOME'] = tree
        else:
            del env['HOME']
    elif x < .18:
        del env['HOME']
        broken_env = 'no base directory'
    elif x < .21:
        del env['SHELL']
        broken_env = 'no shell'
    init = r.choice([None, None, 'nohooks', 'fail'])
    if init:
        env['STUB_INIT'] = init
    want_rc = r.choice([0, 0, 1, 77])
    env['STUB_RC'] = str(want_rc)
    argv = [r.choice(['-blogc-git-receiver', 'blogc-git-receiver', exe]), '-c', text]
    form = 'c'
    x = r.random()
    if x < .15:
        form = 'ssh'
        argv = [exe]
        env['SSH_ORIGINAL_COMMAND'] = text
        shell = exe
        if broken_env == 'no shell':
            broken_env = None
    elif x < .25:
        form = 'refuse'
        argv = r.choice([[exe, '-c'], [exe, '-c', text, 'x'], [exe, text], ['blogc-git-receiver'], ['./blogc-git-receiver'], [exe, '-C', text], [exe, '-c', text, '-c', text], [exe, '--', text]])
        if argv != [exe] and r.random() < .5:
            env['SSH_ORIGINAL_COMMAND'] = text
    before = snapshot(top)
    try:
        p = vlib.run(argv, env=env, cwd=tree) if argv[0] == exe else run_exe(exe, argv, env, tree)
    except (OSError, ValueError):
        return
    after = snapshot(top)
    res.n += 1
    ran = []
    if os.path.exists(log):
        with open(log) as fp:
            for line in fp:
                f = line.rstrip('\n').split(' ')
                ran.append((bytes.fromhex(f[0]).decode(), bytes.fromhex(f[1]).decode(), [bytes.fromhex(y[1:]).decode('utf-8', 'surrogateescape') for y in f[2:-1]]))
    d = 'argv %r SSH_ORIGINAL_COMMAND %r, repository %s, init %s, HOME %r BASE %r' % (
        argv[1:], env.get('SSH_ORIGINAL_COMMAND'), state, init, env.get('HOME'), env.get('BLOGC_GIT_RECEIVER_BASE_DIR'))
    d += '\nstatus %s, ran %r\nstderr %r' % (p.rc, [(a, c) for a, b, c in ran], p.err[-300:])
    if res.crash(p, d):
        return
    # changes of the tree
    changed = {k: (before.get(k), after.get(k)) for k in set(before) | set(after) if before.get(k) != after.get(k) and k != 'log'}
    shells = [x for x in ran if x[0] == 'git-shell']
    others = [x for x in ran if x[0] != 'git-shell']
    for x in others:
        if not (x[0] == 'git' and repo is not None and x[2][:2] == ['init', '--bare'] and len(x[2]) == 3 and os.path.normpath(x[2][2]) == repo):
            res.bad('exec', 'another command was run: %r\n%s' % (x, d))
            return
    relrepo = os.path.relpath(repo, top) if repo is not None else None
    receive = m is not None and m.group(1) == 'git-receive-pack'
    for k, (old, new) in changed.items():
        ok = repo is not None and receive and (k == relrepo or relrepo.startswith(k + '/') or k.startswith(relrepo + '/')) and form != 'refuse'
        if state == 'elsewhere':
            k2 = os.path.relpath(os.path.join(bd, 'away'), top)
            ok = ok or (receive and k.startswith(k2 + '/'))
        if not ok:
            res.bad('touched', '%r was %r and is %r\n%s' % (k, old, new, d))
            return
        if os.path.basename(k) in ('pre-receive', 'post-receive') and os.path.basename(os.path.dirname(k)) == 'hooks':
            if new is not None and new != ('link', shell):
                res.bad('hook', '%r is %r\n%s' % (k, new, d))
                return
        elif new is None or old is not None:
            res.bad('touched', '%r was %r and is %r\n%s' % (k, old, new, d))
            return
    if len(shells) > 1:
        res.bad('exec', 'git-shell ran more than once\n' + d)
        return
    out = 'refused'
    if shells:
        out = 'ran'
        args = shells[0][2]
        if form == 'refuse' or broken_env:
            res.bad('accepted', 'ran git-shell\n' + d)
            return
        if name is None:
            res.bad('accepted', 'the command is none of the documented ones\n' + d)
            return
        if len(args) != 2 or args[0] != '-c':
            res.bad('git-shell', 'git-shell arguments %r\n%s' % (args, d))
            return
        c, _, rest = args[1].partition(' ')
        w = words(rest)
        if c != m.group(1) or w is None or len(w) != 1:
            res.bad('git-shell', 'git-shell runs %r\n%s' % (args[1], d))
            return
        if os.path.normpath(w[0]) != repo or not repo.startswith(os.path.join(bd, 'repos') + '/'):
            res.bad('git-shell', 'repository %r, expected %r\n%s' % (w[0], repo, d))
            return
        if p.rc != want_rc:
            res.bad('status', 'status %r, git-shell exited with %d\n%s' % (p.rc, want_rc, d))
            return
        if receive:
            for h in ('pre-receive', 'post-receive'):
                q = os.path.join(repo, 'hooks', h)
                if not os.path.islink(q) or os.readlink(q) != shell:
                    res.bad('hook', '%s is not a link to %r\n%s' % (h, shell, d))
                    return
    else:
        if p.rc == 0:
            res.bad('status', 'status 0 but git-shell did not run\n' + d)
            return
        if not p.err:
            res.bad('status', 'refused without a word\n' + d)
            return
        fail = receive and (state in ('file', 'hookfile', 'hookdir') or (state == 'none' and init == 'fail'))
        if plain and not long_ and form in ('c', 'ssh') and not broken_env and not fail and '\n' not in name:
            res.bad('refused', 'a valid command was refused\n' + d)
            return
    res.sig(text, out, state, form)
    res.feats['%s, %s' % (out, 'valid' if plain else 'other spelling' if name is not None else 'invalid')] += 1
    res.feats['form ' + form] += 1
    if broken_env:
        res.feats[broken_env] += 1
    if shells and receive:
        res.feats['receive-pack, repository ' + state] += 1
    if res.sample is None and shells:
        res.sample = {'command': text, 'git-shell': shells[0][2]}


def run_exe(exe, argv, env, cwd):
    import subprocess
    p = subprocess.Popen(argv, executable=exe, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, start_new_session=True)
    try:
        out, err = p.communicate(timeout=60)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return vlib.R(None, b'', b'', True)
    return vlib.R(p.returncode, out, err, False)


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
