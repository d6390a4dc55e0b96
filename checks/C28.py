"""C28: the deploy hook deletes nothing but its own builds and temporary files."""
import os
import random
import re
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import receiver  # noqa: E402
import vlib  # noqa: E402

PID = 'C28'
VARIANTS = ('asan', 'plain')
COUNT = {'quick': 120, 'thorough': 6000}
RULE = ('sequences of pushes of hostile repositories (links to a victim directory everywhere, odd names, deep trees, '
        'permissions, builds that succeed, fail, die or leave links as output) with a monitor on every file-tree call of the '
        'hook and a comparison of everything outside the checkout and the replaced build; distinct = different features and '
        'outcome')
MIN_DISTINCT = 150
ASSUMPTIONS = ['what make(1) itself does inside a build is the pusher\'s', 'a target that is named exactly like a build is taken for one',
               'an output directory that the build made something else than a directory may stay in the builds directory']
worker_init = receiver.worker_init
NAMES = ['a', 'sp ace', '-rf', '--', "q'u", '"', '\\', '$(x)', 'ü', '日本', 'new\nline', '*', '.hidden', '..x', '...', 'x' * 250, '%s', '~', '\x01', 'blogcfile2', 'htdocs', 'builds', '\t', '!', '&', '|', ';', '`', '#']


def gen(rng, i, tier):
    return {'seed': rng.randrange(1 << 40), 'n': rng.choice([2, 3, 4])}


def tree(r, w, feats):
    """a hostile tree below site/"""
    files = {}
    v = w.j('victim')
    targets = [v, v + '/', v + '/deep', v + '/file', v + '/deep/dir', w.bd, os.path.join(w.bd, 'repos'), w.j('www'), '../' * 8 + v.lstrip('/'), '/nonexistent', '.', '..', 'self', w.j('victim', 'link'),
               os.path.join(w.bd, 'builds'), w.j('victim', 'fifo')]
    for _ in range(r.choice([1, 3, 8, 15])):
        p = '/'.join(r.choice(NAMES) for _ in range(r.choice([1, 1, 2, 3, 6])))
        x = r.random()
        if x < .45:
            files[p] = ('link', r.choice(targets))
            feats.add('link')
        elif x < .5:
            files[p] = ('x', b'#!/bin/sh\n')
        else:
            files[p] = r.choice([b'', b'data', b'\0' * 3000])
    if r.random() < .3:
        kind = r.choice(['deep', 'long path', 'very deep'])
        if kind == 'deep':
            files['/'.join('d%d' % k for k in range(100)) + '/f'] = b'x'
        elif kind == 'long path':
            n = r.choice([3000, 3990, 4040, 4060, 4070])
            p = '/'.join(['L' * 200] * (n // 201)) + '/'
            files[p + 'f' * max(1, min(200, n - len(p)))] = b'x'
        else:
            files['/'.join(['n'] * r.choice([900, 1100, 1500, 1900])) + '/f'] = b'x'
        feats.add(kind)
    return {k: d for k, d in files.items() if not any(k != o and k.startswith(o + '/') for o in files)}


def run_case(ctx, case):
    r = random.Random(case['seed'])
    res = vlib.Res()
    w = receiver.World(ctx, r, r.choice(['home', 'ho me', "h'o"]))
    repo = 'blog.git'
    d0 = os.path.join(w.bd, 'repos', repo)
    link = os.path.join(d0, 'htdocs')
    if r.random() < .4:
        link = w.j('www', 'site')
        with open(os.path.join(w.bd, 'blogc-git-receiver.ini'), 'w') as fp:
            fp.write('[repo:blog.git]\nsymlink = %s\n' % link)
    builds = os.path.join(w.bd, 'builds')
    w.git(['init', '-q', '--bare', d0], cwd=w.top)
    # things of others in the builds directory
    for k in ('keep/file', 'a' * 40 + '-1/file', 'b' * 40 + '-1700000000-7/x/file'):
        os.makedirs(os.path.dirname(os.path.join(builds, k)))
        with open(os.path.join(builds, k), 'w') as fp:
            fp.write('of another repository')
    foreign = set(os.listdir(builds))
    os.mkfifo(w.j('victim', 'fifo'))
    if r.random() < .3:
        # the link shows something that is no build
        t = r.choice([w.j('victim'), w.j('victim', 'deep'), w.j('victim', 'file'), '/nonexistent'])
        if r.random() < .6:
            t = w.j('victim', r.choice(['a-1', '0123456789abcdef-1700000000', 'c' * 39 + '-1700000000', 'C' * 40 + '-17', 'c' * 40 + '-', 'c' * 40, 'c' * 40 + '-x-1', 'c' * 39 + 'g-1700000000', 'c' * 40 + '_1700000000']))
        if not os.path.exists(t) and t.startswith(w.j('victim')):
            os.makedirs(os.path.join(t, 'sub'))
            open(os.path.join(t, 'sub', 'file'), 'w').close()
        os.symlink(t, link)
    receiver.own(w.top)
    decoy = '/tmp/blogc_keep%d' % os.getpid()
    os.makedirs(decoy, exist_ok=True)
    open(os.path.join(decoy, 'f'), 'w').close()
    receiver.own(decoy)
    hist = []
    made = set()                     # builds of this repository
    try:
        for step in range(case['n']):
            feats = set()
            t = tree(r, w, feats)
            files = {'site/' + k: v for k, v in t.items() if len('site/' + k) < 4090}
            out = '"$(OUTPUT_DIR)"'
            ends = r.choice(['ok', 'ok', 'ok', 'ok', 'fails', 'fails', 'dies', 'nothing', 'no output', 'link output', 'link output fails', 'file output', 'linked Makefile', 'linked blogcfile', 'blogcfile directory', 'archive dies', 'rename fails', 'symlink fails'])
            mode = r.choice(['', '', 'chmod -R a-w .', 'chmod -R a-w ' + out, 'chmod 0 site', 'find ' + out + ' -type d -exec chmod 0 {} +', 'chmod -R 0 ' + out, 'find . -type d -exec chmod 0 {} +', 'chmod 0 .', 'mkdir fifo.d; /usr/bin/mkfifo fifo.d/p ' + out + '/p'])
            b = 'all:\n\tmkdir -p %s && { cp -a site/. %s/; touch %s/complete; true; }\n' % (out, out, out)
            if mode:
                b += '\t-' + mode + '\n'
                feats.add('mode')
            if ends == 'fails':
                b += '\tfalse\n'
            elif ends == 'dies':
                b += '\tkill -9 $$PPID; sleep 1\n'
            elif ends == 'no output':
                b = 'all:\n\ttrue\n' + ('\t-' + mode + '\n' if mode else '')
            elif ends.startswith('link output'):
                b = 'all:\n\tmkdir -p %s && rm -r %s && ln -s %s %s\n' % (out, out, w.j('victim', 'deep'), out) + ('\tfalse\n' if 'fails' in ends else '')
            elif ends == 'file output':
                b = 'all:\n\tmkdir -p %s && rm -r %s && touch %s\n' % (out, out, out)
            if ends == 'linked Makefile':
                files['Makefile'] = ('link', w.j('victim', 'file'))
            elif ends == 'linked blogcfile':
                files['blogcfile'] = ('link', w.j('victim', 'file'))
            elif ends == 'blogcfile directory':
                files['blogcfile/x'] = b'x'
            elif ends != 'nothing':
                files['Makefile'] = b
            h = w.commit(files)
            env = dict(w.env)
            if ends == 'archive dies':
                core = w.bin('core-%d' % step, scripts={'git': '#!/bin/sh\nif [ "$1" = archive ]; then /usr/bin/git "$@" | head -c 3000; kill -9 $$; fi\nexec /usr/bin/git "$@"\n'})
                for f in os.listdir(receiver.CORE):
                    if not os.path.lexists(os.path.join(core, f)):
                        os.symlink(os.path.join(receiver.CORE, f), os.path.join(core, f))
                env['GIT_EXEC_PATH'] = core
            if ends in ('rename fails', 'symlink fails'):
                env['HW_FAIL'] = ends.split(' ')[0] + ':1:28'
            # everything but the repository, the builds of this repository, scratch space and logs
            skip = ['log', 'client'] + [os.path.relpath(x, w.top) for x in made]
            rel = os.path.relpath(d0, w.top)
            skip += [rel + '/objects', rel + '/refs', rel + '/packed-refs', rel + '/hooks']
            lrel = os.path.relpath(link, w.top)
            old = os.path.realpath(link) if os.path.islink(link) else None
            before = receiver.snapshot(w.top, skip)
            if step and r.random() < .2 and old in made:
                how = 'rebuild'
                rr, log = w.rebuild(repo, env=env, link=link)
            else:
                how = 'push'
                rr, log = w.push(repo, [h + ':refs/heads/master'], env=env, link=link)
            res.n += 1
            label = '%s, %s, %s' % (how, ends, mode or 'plain')
            hist.append(label)
            d = 'event: %s %s\nstatus %s\n%s\nhistory: %s' % (label, sorted(feats), rr.rc, (rr.err[:400] + b' ... ' + rr.err[-500:] if len(rr.err) > 900 else rr.err).decode('utf-8', 'replace'), ' ; '.join(hist))
            if res.crash(rr, d):
                w.drop_temps(log)
                return res
            temps = w.temps(log)
            left = [x for x in temps if os.path.lexists(x)]
            if left:
                deepest = max((os.path.join(a, f) for a, _, fs in os.walk(left[0]) for f in fs), key=len, default='')
                res.bad('temporary files', '%r is left behind (%d characters deep)\n%s' % (left, len(deepest), d))
                for x in left:
                    vanish(x)
                return res
            new = set(os.listdir(builds)) - foreign - {os.path.basename(x) for x in made}
            now = os.path.realpath(link) if os.path.islink(link) else None
            # calls
            allowed = temps + ([old] if old in made else []) + [os.path.join(builds, x) for x in new]
            outs = set()
            for e in log:
                if e['op'] == 'symlink':
                    outs.add(e['a'])
                if e['op'] == 'system':
                    for x in re.findall(r"OUTPUT_DIR='((?:[^']|'\\'')*)'", e['a']):
                        outs.add(x.replace("'\\''", "'"))
            for e in log:
                if e['op'] in ('unlink', 'rmdir', 'remove', 'chmod'):
                    p = os.path.normpath(os.path.join(e['cwd'] or '/', e['a']))
                    if not any(p == x or p.startswith(x + '/') for x in allowed + sorted(outs)) and not p.startswith(link + '.'):
                        res.bad('call', '%s(%r)\n%s' % (e['op'], p, d))
                        return res
            skip2 = skip + [os.path.relpath(os.path.join(builds, x), w.top) for x in new]
            after = receiver.snapshot(w.top, skip2)
            for k in sorted(set(before) | set(after)):
                if before.get(k) != after.get(k) and k != lrel:
                    res.bad('touched', '%r was %r and is %r\n%s' % (k, before.get(k), after.get(k), d))
                    return res
            if not os.path.exists(os.path.join(decoy, 'f')):
                res.bad('touched', 'a directory of another process in /tmp is gone\n' + d)
                return res
            # builds
            for x in sorted(new):
                p = os.path.join(builds, x)
                if p == now:
                    made.add(p)
                elif os.path.isdir(p) and not os.path.islink(p):
                    res.bad('left behind', 'the output of a failed build is left: %r\n%s' % (x, d))
                    return res
                else:
                    foreign.add(x)
            if now != old and old in made:
                if os.path.lexists(old):
                    res.bad('left behind', 'the replaced build is still there\n' + d)
                    return res
                made.discard(old)
            if now == old and old in made and not os.path.isdir(old):
                res.bad('touched', 'the deployed build is gone\n' + d)
                return res
            for f in sorted(feats) + [ends]:
                res.feats[f] += 1
            res.feats['replaced a build' if now != old and old else 'unchanged' if now == old else 'first'] += 1
            res.feats['monitored calls'] += len(log)
            res.sig(label, sorted(feats), rr.rc, now == old)
    finally:
        # decoy is ours: made above, holds one file
        for f in os.listdir(decoy) if os.path.isdir(decoy) else ():
            os.unlink(os.path.join(decoy, f))
        if os.path.isdir(decoy):
            os.rmdir(decoy)
        vanish_builds(w)
    if res.sample is None:
        res.sample = {'history': hist}
    return res


def vanish(p):
    assert receiver.TMP_RE.match(p), p
    os.system('chmod -R u+rwx %s; rm -rf %s' % (p, p))


def vanish_builds(w):
    # deep trees that os.walk can not remove
    assert w.top.startswith(vlib.SCRATCH_ROOT + '/'), w.top
    import subprocess
    subprocess.run(['chmod', '-R', 'u+rwx', w.bd], stderr=subprocess.DEVNULL)
    subprocess.run(['rm', '-rf', w.bd], stderr=subprocess.DEVNULL)


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
