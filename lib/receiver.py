"""A git server with blogc-git-receiver in a scratch directory, used through
real pushes; shared by C27 and C28.  Everything runs as an unprivileged user."""
import os
import random
import re
import shutil
import stat
import subprocess
import vbuild
import vlib

UID = 65534
TMP_RE = re.compile(r'^/tmp/blogc_[A-Za-z0-9]{6}$')
TOOLS = ['git', 'git-receive-pack', 'git-upload-pack', 'tar', 'cp', 'mkdir', 'rm', 'mv', 'touch', 'chmod', 'cat', 'ln', 'head', 'sleep', 'kill', 'true', 'false', 'find', 'printf', 'git-shell', 'ls', 'readlink', 'test', 'env', 'dd', 'sh']
CORE = subprocess.run(['git', '--exec-path'], stdout=subprocess.PIPE).stdout.decode().strip()
SHELL = shutil.which('git-shell') or '/usr/bin/git-shell'


def drop():
    os.umask(0o022)
    try:
        os.setgroups([])
        os.setgid(UID)
        os.setuid(UID)
    except PermissionError:
        pass


def own(path):
    for d, dirs, files in os.walk(path):
        for f in dirs + files + ['']:
            p = os.path.join(d, f) if f else d
            try:
                os.lchown(p, UID, UID)
            except OSError:
                pass


def snapshot(root, skip=()):
    out = {}
    for d, dirs, files in os.walk(root):
        rel = os.path.relpath(d, root)
        dirs[:] = [x for x in dirs if os.path.normpath(os.path.join(rel, x)) not in skip]
        for f in dirs + files:
            p = os.path.join(d, f)
            st = os.lstat(p)
            k = os.path.normpath(os.path.join(rel, f))
            if k in skip:
                continue
            m = stat.S_IMODE(st.st_mode)
            if stat.S_ISLNK(st.st_mode):
                out[k] = ('link', os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                out[k] = ('dir', m)
            elif stat.S_ISREG(st.st_mode):
                with open(p, 'rb') as fp:
                    out[k] = ('file', m, fp.read())
            else:
                out[k] = ('other', m)
    return out


def content(root):
    """like snapshot but without modes"""
    return {k: v[:1] + v[2:] if v[0] != 'link' else v for k, v in snapshot(root).items()}


class World:
    def __init__(self, ctx, r, bdname='home'):
        self.ctx, self.r = ctx, r
        self.top = ctx.fresh('world')
        os.chmod(self.top, 0o755)
        self.bd = os.path.join(self.top, bdname)
        for d in (self.bd, self.j('client'), self.j('victim', 'deep', 'dir'), self.j('www'), self.j('tmp'), self.j('log')):
            os.makedirs(d)
        os.makedirs(os.path.join(self.bd, 'repos'))
        for k in ('file', 'deep/file', 'deep/dir/file', 'complete'):
            with open(self.j('victim', k), 'w') as fp:
                fp.write('precious ' + k)
        os.chmod(self.j('victim', 'file'), 0o600)
        os.symlink('file', self.j('victim', 'link'))
        with open(self.j('ssh.sh'), 'w') as fp:
            fp.write('#!/bin/sh\nfor c; do :; done\nexec "$SHELL" -c "$c"\n')
        os.chmod(self.j('ssh.sh'), 0o755)
        self.bin('bin')
        self.env = vlib.base_env(HOME=self.bd, PATH=self.j('bin'), SHELL=ctx.recv, GIT_SSH_COMMAND=self.j('ssh.sh'), GIT_SSH_VARIANT='simple', GIT_CONFIG_NOSYSTEM='1',
                                 GIT_AUTHOR_NAME='a', GIT_AUTHOR_EMAIL='a@b', GIT_COMMITTER_NAME='a', GIT_COMMITTER_EMAIL='a@b', GIT_TERMINAL_PROMPT='0',
                                 TMPDIR=self.j('tmp'), GIT_CONFIG_COUNT='1', GIT_CONFIG_KEY_0='init.defaultBranch', GIT_CONFIG_VALUE_0='master')
        self.client = self.j('client', 'c.git')
        own(self.top)
        self.git(['init', '-q', '--bare', '-b', 'master', self.client], cwd=self.top)
        self.marks = 0
        self.commits = {}
        self.logn = 0
        self.epoch = 1700000000

    def j(self, *a):
        return os.path.join(self.top, *a)

    def bin(self, name, without=(), scripts=None):
        d = self.j(name)
        if os.path.exists(d):
            return d
        os.makedirs(d)
        for t in TOOLS + ['make', 'gmake']:
            if t in without or (scripts and t in scripts):
                continue
            p = shutil.which(t)
            if p:
                os.symlink(p, os.path.join(d, t))
        for t in ('blogc', 'blogc-make'):
            if t not in without:
                os.symlink(self.ctx.progs[t], os.path.join(d, t))
        for t, text in (scripts or {}).items():
            with open(os.path.join(d, t), 'w') as fp:
                fp.write(text)
            os.chmod(os.path.join(d, t), 0o755)
        os.chmod(d, 0o755)
        return d

    def git(self, args, stdin=None, cwd=None, check=True):
        p = subprocess.run(['git'] + args, input=stdin, cwd=cwd or self.client, env=self.env, preexec_fn=drop, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if check and p.returncode != 0:
            raise RuntimeError('git %r: %s' % (args, p.stderr.decode('utf-8', 'replace')))
        return p.stdout.decode().strip()

    def commit(self, files, branch='work'):
        """files: {path: bytes | ('x', bytes) | ('link', target)}; returns the hash"""
        self.epoch += 1
        out = [b'reset refs/heads/%s\n' % branch.encode(), b'commit refs/heads/%s\nmark :1\ncommitter a <a@b> %d +0000\ndata 1\nc\n' % (branch.encode(), self.epoch)]
        for k, v in sorted(files.items()):
            mode, data = '100644', v
            if isinstance(v, tuple):
                mode = {'x': '100755', 'link': '120000'}[v[0]]
                data = v[1]
            if isinstance(data, str):
                data = data.encode()
            q = '"' + ''.join('\\%03o' % b if b < 32 or b > 126 or chr(b) in '"\\' else chr(b) for b in k.encode()) + '"'
            out.append(b'M %s inline %s\ndata %d\n' % (mode.encode(), q.encode(), len(data)) + data + b'\n')
        out.append(b'get-mark :1\n')
        h = self.git(['fast-import', '--quiet', '--force', '--cat-blob-fd=1'], stdin=b''.join(out))
        h = h.split('\n')[-1]
        assert re.fullmatch('[0-9a-f]{40}', h), h
        return h

    def push(self, repo, specs, env=None, link=None, timeout=60):
        """git push through the login shell; (result, log of the hook)"""
        return self.hooked(['git', 'push', '-q', '--force', 'host:' + repo] + specs, self.client, env, link, timeout)

    def rebuild(self, repo, env=None, link=None, timeout=60):
        d = os.path.join(self.bd, 'repos', repo)
        e = dict(env or self.env)
        return self.hooked(['./hooks/pre-receive'], d, e, link, timeout)

    def hooked(self, cmd, cwd, env, link, timeout):
        self.logn += 1
        log = self.j('log', str(self.logn))
        e = dict(env or self.env)
        e['LD_PRELOAD'] = self.ctx.hw
        e['HW_LOG'] = log
        if link:
            e['HW_LINK'] = link
        for t in (timeout, timeout * 5):
            p = subprocess.Popen(cmd, cwd=cwd, env=e, preexec_fn=drop, start_new_session=True, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            try:
                out, err = p.communicate(timeout=t)
                r = vlib.R(p.returncode, out, err, False)
                break
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.communicate()
                r = vlib.R(None, b'', b'', True)
                break
        return r, self.readlog(log)

    def readlog(self, log):
        out = []
        if not os.path.exists(log):
            return out
        with open(log) as fp:
            for line in fp:
                f = line.rstrip('\n').rstrip(' ').split(' ')
                if len(f) < 7:
                    continue
                v = [None if x == '-' else bytes.fromhex(x[1:]).decode('utf-8', 'surrogateescape') for x in f[2:7]]
                out.append({'pid': int(f[0]), 'op': f[1], 'cwd': v[0], 'a': v[1], 'b': v[2], 'link': v[3], 'token': v[4]})
        return out

    def temps(self, log):
        return [e['a'] for e in log if e['op'] == 'mkdtemp' and TMP_RE.match(e['a'] or '')]

    def drop_temps(self, log):
        for t in self.temps(log):
            if os.path.isdir(t) and not os.path.islink(t):
                subprocess.run(['chmod', '-R', 'u+rwx', t], stderr=subprocess.DEVNULL)
                shutil.rmtree(t, ignore_errors=True)


def worker_init(ctx):
    """Copies of the programs where the unprivileged user can run them."""
    d = os.path.join(ctx.dir, 'prog')
    os.makedirs(d)
    for p in (os.path.dirname(os.path.dirname(d)), ctx.dir, d):
        os.chmod(p, 0o755)
    ctx.progs = {}
    for t in ('blogc', 'blogc-make', 'blogc-git-receiver'):
        src = ctx.asan(t) if t == 'blogc-git-receiver' else ctx.plain(t)
        ctx.progs[t] = os.path.join(d, t)
        shutil.copy(src, ctx.progs[t])
        os.chmod(ctx.progs[t], 0o755)
    ctx.recv = ctx.progs['blogc-git-receiver']
    ctx.hw = os.path.join(d, 'hw.so')
    shutil.copy(vbuild.preload('hookwatch', ctx.b['asan']), ctx.hw)
    os.chmod(ctx.hw, 0o755)
