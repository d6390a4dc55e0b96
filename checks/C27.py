"""C27: a push deploys exactly the pushed master, or leaves the site as it was."""
import os
import random
import re
import subprocess
import sys
import threading
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import receiver  # noqa: E402
import vlib  # noqa: E402

PID = 'C27'
VARIANTS = ('asan', 'plain')
COUNT = {'quick': 256, 'thorough': 6000}
RULE = ('histories of git pushes (through the login shell), rebuilds, failing builds, injected faults and kills on one or two '
        'repositories; after every event the deployed tree, the builds directory and the refs are compared with a model, and '
        'at every file-tree call of the hook the link must show a complete site; distinct = different event and outcome')
MIN_DISTINCT = 200
ASSUMPTIONS = ['a kill may leave temporary files, and may happen after the new site went live',
               'builds directories with characters that make(1) expands are left out']
worker_init = receiver.worker_init
GMAKE = 'all:\n\ttest "$(BLOGC_GIT_RECEIVER)" = 1 && mkdir -p "$(OUTPUT_DIR)" && cp -a site/. "$(OUTPUT_DIR)"/\n'
TMPL = '<html>{% ifdef MAKE_ENV_DEV %}a development build{% endif %}{% block entry %}<h1>{{ TITLE }}</h1>{{ CONTENT }}{% endblock %}{% block listing %}<p>{{ TITLE }}</p>{% endblock %}</html>\n'
GLOBAL = '[global]\nAUTHOR_NAME = A\nAUTHOR_EMAIL = a@b\nSITE_TITLE = T\nSITE_TAGLINE = G\nBASE_DOMAIN = http://x\n'


def gen(rng, i, tier):
    return {'seed': rng.randrange(1 << 40), 'n': rng.choice([3, 5, 8] if tier == 'quick' else [4, 8, 16])}


def extra(r):
    files = {}
    for _ in range(r.choice([0, 1, 3, 6])):
        n = '/'.join(r.choice(['a', 'b b', 'ü', 'x.html', 'deep', "q'"]) + str(r.randrange(4)) for _ in range(r.choice([1, 1, 2, 4])))
        files[n] = r.choice([b'', b'text\n', bytes(range(256)), b'x' * 200000, ('x', b'#!/bin/sh\n'), ('link', 'complete')])
    # no file below a file
    return {k: v for k, v in files.items() if not any(k != o and k.startswith(o + '/') for o in files)}


class Repo:
    def __init__(self, name):
        self.name = name
        self.refs = {}
        self.cur = None          # (token, content, target) of what is deployed
        self.link = None
        self.made = False
        self.orphan = False      # killed after it went live: its commit is not in the repository


class Case:
    def __init__(self, ctx, case, res):
        self.r = random.Random(case['seed'])
        self.res = res
        self.ctx = ctx
        self.w = receiver.World(ctx, self.r, self.r.choice(['home', 'ho me', "h'o", 'hö']))
        self.n = 0
        self.junk = set()
        self.hist = []
        r = self.r
        names = r.choice([['blog.git'], ['blog.git', 'other/blog.git'], ['b b.git'], ["it's.git", 'x.git']])
        self.repos = [Repo(n) for n in names]
        ini = ''
        for k, p in enumerate(self.repos):
            d = os.path.join(self.w.bd, 'repos', p.name)
            p.dir = d
            x = r.random()
            if x < .45:
                p.link = os.path.join(d, 'htdocs')
            else:
                rel = r.choice(['public', '../sibling%d' % k, None, None])
                v = rel or self.w.j('www', r.choice(['site', 's p', 'sü']) + str(k))
                p.link = os.path.normpath(os.path.join(d, v))
                ini += '[repo:%s]\nsymlink = %s\n' % (p.name, v)
        if r.random() < .3:
            ini += '[repo:another.git]\nsymlink = %s\n' % self.w.j('www', 'wrong')
        self.builds = os.path.join(self.w.bd, 'builds')
        if r.random() < .3:
            self.builds = self.w.j('bui lds')
            self.w.env['BLOGC_GIT_RECEIVER_BUILDS_DIR'] = self.builds
        if r.random() < .2:
            self.w.env['BLOGC_GIT_RECEIVER_BASE_DIR'] = self.w.bd
            self.w.env['HOME'] = self.w.top
        if ini or r.random() < .2:
            with open(os.path.join(self.w.bd, 'blogc-git-receiver.ini'), 'w') as fp:
                fp.write(ini)
        self.ini = ini
        receiver.own(self.w.bd)
        if r.random() < .25:
            # something that the administrator put there
            p = self.repos[0]
            t = self.w.j('www', r.choice(['manual', 'my-site', 'abc-123', '0' * 39 + '-1', 'a' * 40 + '-x', 'd' * 40 + '-12.bak']))
            os.makedirs(t)
            with open(os.path.join(t, 'complete'), 'w') as fp:
                fp.write('manual')
            if p.link.startswith(p.dir + '/'):
                self.w.git(['init', '-q', '--bare', p.dir], cwd=self.w.top)
            os.makedirs(os.path.dirname(p.link), exist_ok=True)
            os.symlink(t, p.link)
            receiver.own(t)
            receiver.own(os.path.join(self.w.bd, 'repos'))
            receiver.own(os.path.dirname(p.link))
            self.manual = t
            self.victim0 = receiver.snapshot(t)
            p.cur = ('manual', receiver.content(t), t)
        else:
            self.manual = None

    def bad(self, key, msg):
        self.res.bad(key, '%s\nhistory: %s' % (msg, ' ; '.join(self.hist)))

    # commits ---------------------------------------------------------------
    def site(self, kind):
        """(hash, token, content or None)"""
        r = self.r
        self.n += 1
        tok = 'v%d' % self.n
        files = extra(r)
        files['complete'] = tok.encode()
        tree = {}
        if kind in ('make', 'slow', 'fail late', 'no output', 'file output', 'killed', 'syntax', 'empty dir'):
            for k, v in files.items():
                tree['site/' + k] = v
            text = GMAKE
            if kind == 'slow':
                text = text.replace('mkdir', 'sleep 0.4 && mkdir')
            if kind == 'fail late':
                text = text.rstrip('\n') + r.choice([' && false\n', '; exit 3\n', '\n\tcat missing\n'])
            if kind == 'no output':
                text = 'all:\n\ttrue\n'
            if kind == 'file output':
                text = 'all:\n\tmkdir -p "$(OUTPUT_DIR)" && rm -r "$(OUTPUT_DIR)" && cp site/complete "$(OUTPUT_DIR)"\n'
            if kind == 'killed':
                text = text.rstrip('\n') + '; kill -9 $$PPID; sleep 1\n'
            if kind == 'syntax':
                text = 'all\n\tx\n'
            # GNU make reads both
            tree[r.choice(['Makefile', 'Makefile', 'GNUmakefile'])] = text
        elif kind == 'nothing':
            tree = dict(files)
        else:
            tree = {'blogcfile': GLOBAL + '[settings]\nposts_per_page = 0\n[pages]\nabout\n[copy]\ncomplete\n' + ('assets\n' if len(files) > 1 else ''),
                    'templates/main.tmpl': TMPL, 'complete': files['complete'],
                    'content/about.txt': 'TITLE: About %s\n---\nsome *text*\n' % tok}
            for k, v in files.items():
                if k != 'complete':
                    tree['assets/' + k] = v if v != ('link', 'complete') else b'was a link'
            if r.random() < .3:
                tree['Makefile'] = 'all:\n\tfalse\n'
            if kind == 'bad template':
                tree['templates/main.tmpl'] = TMPL + '{% if'
            if kind == 'no source':
                del tree['content/about.txt']
            if kind == 'bad blogcfile':
                tree['blogcfile'] = '[global]\nx\n'
            if kind == 'no copy':
                del tree['complete']
        h = self.w.commit(tree)
        want = None
        if kind in ('make', 'slow'):
            want = self.expand(files)
        elif kind == 'blogc':
            d = self.w.ctx.fresh('oracle')
            os.chmod(d, 0o777)
            subprocess.run('git archive %s | tar -x -C "$D"; cd "$D" && OUTPUT_DIR="$D/.out" blogc-make all' % h, shell=True, env=dict(self.w.env, D=d), cwd=self.w.client,
                           preexec_fn=receiver.drop, check=True, stdout=subprocess.DEVNULL)
            want = receiver.content(os.path.join(d, '.out'))
        return h, tok, want

    @staticmethod
    def expand(files):
        out = {}
        for k, v in files.items():
            p = k.split('/')
            for m in range(1, len(p)):
                out['/'.join(p[:m])] = ('dir',)
            if isinstance(v, tuple):
                out[k] = ('link', v[1]) if v[0] == 'link' else ('file', v[1])
            else:
                out[k] = ('file', v)
        return out

    # what must hold ----------------------------------------------------------
    def check_site(self, p, what, d):
        """the link shows exactly the deployed site"""
        if p.cur is None:
            if os.path.lexists(p.link):
                self.bad('link', '%s: %s appeared (%r)\n%s' % (what, p.link, os.readlink(p.link) if os.path.islink(p.link) else '?', d))
                return False
            return True
        if not os.path.islink(p.link):
            self.bad('link', '%s: %s is no link\n%s' % (what, p.link, d))
            return False
        t = os.readlink(p.link)
        if not os.path.isdir(p.link):
            self.bad('link', '%s: %s points to %r, which is no directory\n%s' % (what, p.link, t, d))
            return False
        now = receiver.content(os.path.realpath(p.link))
        if now != p.cur[1]:
            diff = sorted(k for k in set(now) | set(p.cur[1]) if now.get(k) != p.cur[1].get(k))
            self.bad('content', '%s: the deployed site differs from %s in %r\n%s' % (what, p.cur[0], diff[:5], d))
            return False
        if p.cur[2] is not None and os.path.realpath(t) != os.path.realpath(p.cur[2]):
            self.bad('link', '%s: the link moved to %r\n%s' % (what, t, d))
            return False
        return True

    def watch(self, p, log, new, d):
        """the link shows a complete site whenever the hook touches the tree"""
        for e in log:
            ok = [p.cur[0]] if p.cur else [None]
            if new:
                ok.append(new)
            if e['token'] not in ok and not (p.cur is None and e['token'] is None):
                self.bad('incomplete', 'before %s(%r) the link points to %r, which holds %r instead of one of %r\n%s' % (e['op'], e['a'], e['link'], e['token'], ok, d))
                return False
        return True

    def tidy(self, d, killed=False):
        deployed = {os.path.realpath(p.cur[2]) for p in self.repos if p.cur}
        if os.path.isdir(self.builds):
            for f in os.listdir(self.builds):
                q = os.path.join(os.path.realpath(self.builds), f)
                if q not in deployed and f not in self.junk:
                    if killed:
                        self.junk.add(f)
                    else:
                        self.bad('left behind', '%r is left in the builds directory\n%s' % (f, d))
                        return False
        for p in self.repos:
            dd = os.path.dirname(p.link)
            if os.path.isdir(dd):
                for f in os.listdir(dd):
                    if f.startswith(os.path.basename(p.link) + '.') and os.path.join(dd, f) not in self.junk:
                        if killed:
                            self.junk.add(os.path.join(dd, f))
                        else:
                            self.bad('left behind', '%r is left next to the link\n%s' % (f, d))
                            return False
        if self.manual and receiver.snapshot(self.manual) != self.victim0:
            self.bad('manual', 'the previous target, which is no build, was changed\n' + d)
            return False
        return True

    # events --------------------------------------------------------------------
    def event(self):
        r = self.r
        p = r.choice(self.repos)
        kind = r.choice(['push'] * 6 + ['badbuild'] * 3 + ['fault'] * 4 + ['rebuild'] * 2 + ['kill'] * 2 + ['other refs'] * 2 + (['same time'] if len(self.repos) > 1 or p.made else []) + ['delete'])
        env, extra_env, expect, specs = dict(self.w.env), {}, True, []
        undo = []
        token = want = None
        if kind == 'rebuild' and not p.made:
            kind = 'push'
        label = kind
        if kind in ('push', 'fault', 'kill', 'badbuild'):
            good = r.choice(['make', 'blogc', 'make'])
            k = r.choice(['fail late', 'no output', 'file output', 'killed', 'syntax', 'bad template', 'no source', 'bad blogcfile', 'no copy', 'nothing']) if kind == 'badbuild' else good
            h, token, want = self.site(k)
            label += ' ' + k
            if kind == 'badbuild':
                expect = k == 'nothing'
            if k == 'file output':
                self.junk |= {f for f in [h]}
            refs = r.choice([['master'], ['master'], ['master'], ['main'], ['main'], ['master', 'main'], ['many']])
            if refs == ['master', 'main']:
                h2, _, _ = self.site(r.choice(['make', 'fail late', 'nothing']))
                specs = [h + ':refs/heads/master', h2 + ':refs/heads/main']
                r.shuffle(specs)
            elif refs == ['many']:
                specs = ['%s:refs/heads/b%d' % (h, j) for j in range(r.choice([1, 3, 60]))] + ['%s:refs/heads/%s' % (h, r.choice(['master', 'main']))] + ['%s:refs/tags/t%d' % (h, self.n)]
                if p.refs.get('refs/heads/b0') is not None:
                    specs += [':refs/heads/b0']
                    specs = [s for s in specs if not s.endswith(':refs/heads/b0') or s[0] == ':']
                r.shuffle(specs)
            else:
                specs = [h + ':refs/heads/' + refs[0]]
            label += ' to ' + '+'.join(refs)
        elif kind == 'other refs':
            h, _, _ = self.site(r.choice(['make', 'fail late']))
            specs = ['%s:%s' % (h, x) for x in r.sample(['refs/heads/mastery', 'refs/heads/x/master', 'refs/tags/master%d' % self.n, 'refs/heads/mai', 'refs/notes/main', 'refs/heads/Master', 'refs/heads/maine', 'refs/x/heads/master'], r.choice([1, 2, 4]))]
            token = want = None
        elif kind == 'delete':
            have = [x for x in p.refs if x.startswith('refs/heads/') and x not in ('refs/heads/master', 'refs/heads/main')]
            if r.random() < .4 and 'refs/heads/main' in p.refs:
                have = ['refs/heads/main']
                expect = None
            if not have:
                return True
            specs = [':' + r.choice(have)]
            label += ' ' + specs[0]
        fault = None
        if kind == 'fault':
            fault = r.choice(['archive dies', 'archive fails', 'tar fails', 'tar dies', 'no program', 'symlink', 'rename', 'mkdtemp', 'link is a directory', 'link is a file',
                              'no place for the link', 'builds unwritable', 'chdir'])
            label += ' ' + fault
            expect = False
            if fault.startswith('archive'):
                end = 'kill -9 $$' if 'dies' in fault else 'exit 1'
                cut = r.choice(['head -c 600', 'head -c 20000', 'cat', 'head -c 0', 'head -c 1024'])
                # git puts its own directory in front of PATH
                core = self.w.bin('core-%d' % self.n, scripts={'git': '#!/bin/sh\nif [ "$1" = archive ]; then /usr/bin/git "$@" | %s; %s; fi\nexec /usr/bin/git "$@"\n' % (cut, end)})
                for f in os.listdir(receiver.CORE):
                    if not os.path.lexists(os.path.join(core, f)):
                        os.symlink(os.path.join(receiver.CORE, f), os.path.join(core, f))
                env['GIT_EXEC_PATH'] = core
            elif fault.startswith('tar'):
                end = 'kill -9 $$' if 'dies' in fault else 'exit 2'
                env['PATH'] = self.w.bin('bin-%d' % self.n, scripts={'tar': '#!/bin/sh\n%s\n%s\n' % (r.choice(['/usr/bin/tar "$@"', 'exec >/dev/null; cat', ':']), end)})
            elif fault == 'no program':
                env['PATH'] = self.w.bin('bin-none', without=('make', 'gmake', 'blogc-make'))
            elif fault in ('symlink', 'rename', 'mkdtemp'):
                extra_env['HW_FAIL'] = {'mkdtemp': 'mkdtemp-before'}.get(fault, fault) + ':1:%d' % r.choice([28, 5, 13, 30])
            elif fault == 'chdir':
                # the 1st is to the repository, the 2nd to the checkout
                extra_env['HW_FAIL'] = 'chdir:%d:%d' % (r.choice([1, 2]), r.choice([5, 13]))
            elif fault.startswith('link is'):
                dd = os.path.dirname(p.link)
                if not os.path.isdir(dd):
                    return True
                if os.path.lexists(p.link):
                    os.rename(p.link, p.link + '~saved')
                    undo.append(lambda: os.rename(p.link + '~saved', p.link))
                if 'dir' in fault:
                    os.mkdir(p.link)
                    with open(os.path.join(p.link, 'mine'), 'w') as fp:
                        fp.write('mine')
                    undo.insert(0, lambda: (os.unlink(os.path.join(p.link, 'mine')), os.rmdir(p.link)))
                else:
                    open(p.link, 'w').close()
                    undo.insert(0, lambda: os.unlink(p.link))
                receiver.own(p.link) if 'dir' in fault else os.chown(p.link, receiver.UID, receiver.UID)
            elif fault == 'no place for the link':
                dd = os.path.dirname(p.link)
                if dd != self.w.j('www'):
                    return True
                os.chmod(dd, 0o555)
                undo.append(lambda: os.chmod(dd, 0o755))
            elif fault == 'builds unwritable':
                if os.path.isdir(self.builds):
                    os.chmod(self.builds, 0o555)
                    undo.append(lambda: os.chmod(self.builds, 0o755))
                else:
                    open(self.builds, 'w').close()
                    undo.append(lambda: os.unlink(self.builds))
        if kind == 'kill':
            extra_env['HW_KILL'] = str(r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20, 30]))
            label += ' at %s' % extra_env['HW_KILL']
            expect = None
        if kind == 'same time':
            return self.same_time() if p.made and len(self.repos) > 1 and r.random() < .6 else self.two_at_once(p)
        if kind == 'rebuild':
            ours = p.cur is not None and p.cur[2].startswith(self.builds + '/')
            expect = ours
            if p.orphan:
                expect = None
            if p.link.endswith('/htdocs') and not any(k.startswith('BLOGC_GIT_RECEIVER_B') for k in env) and r.random() < .3:
                # nothing says where the builds are
                del env['HOME']
                label += ' without HOME'
                expect = False
            elif ours:
                token, want = p.cur[0], p.cur[1]
        # git only runs the hook when a ref changes
        new = {}
        for s in specs:
            a, b = s.split(':')
            if p.refs.get(b) != (a or None):
                new[b] = a or None
        runs = kind == 'rebuild' or bool(new)
        if kind in ('push', 'fault', 'kill', 'badbuild') and runs:
            m = new.get('refs/heads/master') or new.get('refs/heads/main')
            if m is None:
                runs = False
        if kind == 'other refs':
            token = want = None
        self.hist.append('%s: %s' % (p.name, label))
        e2 = dict(env)
        e2.update(extra_env)
        old = p.cur
        if kind == 'rebuild':
            rr, log = self.w.rebuild(p.name, env=e2, link=p.link)
        else:
            rr, log = self.w.push(p.name, specs, env=e2, link=p.link)
            p.made = p.made or os.path.isdir(p.dir)
        for u in undo:
            u()
        self.res.n += 1
        d = 'event: %s %r\nstatus %s\n%s' % (label, [x[-60:] for x in specs[:4]], rr.rc, rr.err.decode('utf-8', 'replace')[-700:])
        if self.res.crash(rr, d):
            return False
        accepted = rr.rc == 0
        self.w.drop_temps(log) if kind == 'kill' else None
        left = [t for t in self.w.temps(log) if os.path.lexists(t)]
        if left and fault != 'chdir':
            self.bad('temporary files', '%r is left behind\n%s' % (left, d))
            self.w.drop_temps(log)
            return False
        self.w.drop_temps(log)
        if fault == 'chdir' and not [e for e in log if e['op'] == 'chdir']:
            expect = None
        if kind == 'kill':
            # whatever happened, one of the two sites is there in full
            now = os.path.realpath(p.link) if os.path.islink(p.link) else None
            if now and now != (os.path.realpath(old[2]) if old else None):
                p.cur = (token, want, now)
                p.orphan = not accepted
            if accepted and p.cur is old:
                self.bad('not deployed', 'accepted without deploying\n' + d)
                return False
            if accepted:
                p.refs.update({k: v for k, v in new.items()})
            else:
                for k in specs:
                    pass
            if not self.check_site(p, 'after a kill', d) or not self.watch_with(p, old, log, token, d) or not self.tidy(d, killed=True):
                return False
        else:
            if fault and fault.startswith('link is'):
                log = []
            if expect is not None and accepted != expect:
                self.bad('accepted' if accepted else 'refused', 'expected the opposite\n' + d)
                return False
            if accepted and kind != 'rebuild':
                for k, v in new.items():
                    if v is None:
                        p.refs.pop(k, None)
                    else:
                        p.refs[k] = v
            deploys = accepted and want is not None and (kind == 'rebuild' or runs)
            if deploys:
                if not os.path.islink(p.link):
                    self.bad('not deployed', 'there is no link\n' + d)
                    return False
                t = os.path.realpath(p.link)
                if old and t == os.path.realpath(old[2]):
                    self.bad('not deployed', 'the link was not changed\n' + d)
                    return False
                if not t.startswith(os.path.realpath(self.builds) + '/'):
                    self.bad('link', 'the link points to %r, outside of the builds directory\n%s' % (t, d))
                    return False
                p.cur = (token, want, t)
                p.orphan = p.orphan and kind == 'rebuild'
                if old and old[2].startswith(self.builds + '/') and os.path.lexists(old[2]):
                    self.bad('left behind', 'the previous build is still there\n' + d)
                    return False
            if 'file output' in label and os.path.isdir(self.builds):
                self.junk |= {f for f in os.listdir(self.builds) if not os.path.isdir(os.path.join(self.builds, f))}
            if not self.check_site(p, 'after ' + label, d) or not self.watch_with(p, old, log, token if want is not None else None, d) or not self.tidy(d):
                return False
        for q in self.repos:
            if q is not p and not self.check_site(q, 'the other repository', d):
                return False
        # refs
        if kind != 'rebuild' and os.path.isdir(p.dir):
            out = self.w.git(['for-each-ref', '--format=%(refname) %(objectname)'], cwd=p.dir)
            have = dict(x.split(' ') for x in out.split('\n') if x)
            if have != p.refs and kind != 'kill':
                diff = sorted(k for k in set(have) | set(p.refs) if have.get(k) != p.refs.get(k))
                self.bad('refs', 'refs %r\n%s' % (diff[:5], d))
                return False
            p.refs = have
        self.res.sig(label, accepted, old is None, p.link.endswith('htdocs'), len(specs))
        self.res.feats['%s, %s' % (label.split(' to ')[0] if kind != 'kill' else 'kill', 'accepted' if accepted else 'refused')] += 1
        self.res.feats['watched calls'] += len(log)
        return True

    def watch_with(self, p, old, log, new, d):
        cur = p.cur
        p.cur = old
        try:
            return self.watch(p, log, new, d)
        finally:
            p.cur = cur

    def two_at_once(self, p):
        """a push and a rebuild of one repository at once: one of both sites stays, complete"""
        if p.cur is None or not p.cur[2].startswith(self.builds + '/') or p.orphan:
            return True
        h, token, want = self.site('slow')
        self.hist.append('%s: push and rebuild at once' % p.name)
        out = {}
        t = threading.Thread(target=lambda: out.update(a=self.w.rebuild(p.name, link=p.link)))
        t.start()
        time.sleep(self.r.choice([0, .02, .1, .3]))
        rr, log = self.w.push(p.name, [h + ':refs/heads/master'], link=p.link)
        t.join()
        p.refs['refs/heads/master'] = h
        old = p.cur
        for r2, l2 in ((rr, log), out['a']):
            self.res.n += 1
            d = 'push and rebuild at once\nstatus %s\n%s' % (r2.rc, r2.err.decode('utf-8', 'replace')[-500:])
            if self.res.crash(r2, d) or not self.watch(p, l2, token, d):
                return False
            if r2.rc != 0:
                self.bad('refused', d)
                return False
            self.w.drop_temps(l2)
        if not os.path.isdir(p.link):
            self.bad('not deployed', d)
            return False
        now = receiver.content(os.path.realpath(p.link))
        p.cur = (token, want, os.path.realpath(p.link)) if now == want else (old[0], old[1], os.path.realpath(p.link))
        self.res.feats['push and rebuild at once'] += 1
        self.res.sig('two at once', now == want)
        return self.check_site(p, 'two at once', d) and self.tidy(d, killed=True)

    def same_time(self):
        """the same commit to two repositories (or a push and rebuilds) at once"""
        h, token, want = self.site('slow')
        a, b = self.repos[:2]
        self.hist.append('same commit to %s and %s at the same time' % (a.name, b.name))
        out = {}

        def go(p):
            out[p.name] = self.w.push(p.name, [h + ':refs/heads/master'], link=p.link)
        olds = {p.name: p.cur for p in (a, b)}
        # distinct log numbers
        ts = []
        for p in (a, b):
            t = threading.Thread(target=go, args=(p,))
            t.start()
            ts.append(t)
            while p.name not in out and self.w.logn < 1:
                pass
            time.sleep(.02)
        for t in ts:
            t.join()
        for p in (a, b):
            rr, log = out[p.name]
            self.res.n += 1
            d = 'same time, %s\nstatus %s\n%s' % (p.name, rr.rc, rr.err.decode('utf-8', 'replace')[-500:])
            if self.res.crash(rr, d):
                return False
            if rr.rc != 0:
                self.bad('refused', d)
                return False
            if not os.path.isdir(p.link):
                self.bad('not deployed', d)
                return False
            p.made = True
            p.refs['refs/heads/master'] = h
            p.cur = (token, want, os.path.realpath(p.link))
            self.w.drop_temps(log)
        d = 'same commit pushed to two repositories at once'
        if a.cur[2] == b.cur[2]:
            self.bad('shared build', 'both repositories are deployed from %r: the next push to one of them removes the site of the other' % a.cur[2])
            return False
        for p in (a, b):
            if not self.check_site(p, 'same time', d):
                return False
        self.res.feats['same time'] += 1
        self.res.sig('same time', olds[a.name] is None, olds[b.name] is None)
        return self.tidy(d)


def run_case(ctx, case):
    res = vlib.Res()
    c = Case(ctx, case, res)
    for _ in range(case['n']):
        if not c.event():
            break
    if res.sample is None:
        res.sample = {'history': c.hist, 'configuration': c.ini}
    return res


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
