"""C17: an incremental build equals a clean build, and rebuilds nothing without a change."""
import copy
import os
import random
import shutil
import sys
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import mk  # noqa: E402
import sitegen  # noqa: E402
import vlib  # noqa: E402

PID = 'C17'
VARIANTS = ('asan', 'plain')
COUNT = {'quick': 260, 'thorough': 16000}
RULE = ('histories of edits, additions, removals, renames, failing intermediate states and builds that die half-way; after each build every '
        'file is compared with that of a clean build of the same state into another directory, and a further build must not rewrite any; '
        'modification times are set so that changes are newer by anything from a nanosecond to days; distinct = different histories')
MIN_DISTINCT = 150
ASSUMPTIONS = ['files that a clean build would not produce may stay', 'a path of a file is never reused for a directory or the other way round',
               'each changed file gets a modification time later than those of the outputs']
NS = 10 ** 9
STEPS = [1, 2, 999, 10 ** 6, NS - 1, NS, NS + 1, 5 * NS, 86400 * NS, 17 * NS + 123]
DIE = '#!/bin/sh\nfor a; do case $p in -o) mkdir -p "$(dirname "$a")"; printf partial >> "$a";; esac; p=$a; done\n'


def gen(rng, i, tier):
    r = random.Random(rng.randrange(1 << 40))
    site = sitegen.generate(r, small=r.random() < .6)
    if r.random() < .3:
        site['settings'].setdefault('atom_template', 'feed.tmpl')
        if sitegen.collision(site):
            del site['settings']['atom_template']
    g = sitegen.Gen(r, True)
    g.n = 50
    steps, every = [site], {}
    note(every, site)
    what = [[]]
    for _ in range(r.choice([1, 2, 3, 4, 5]) if tier == 'quick' else r.choice([2, 4, 6, 9])):
        for _ in range(30):
            s = copy.deepcopy(steps[-1])
            ops = [edit(r, s, g) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]
            if s['dev'] == steps[-1]['dev'] and not sitegen.collision(s) and fits(every, s):
                steps.append(s)
                what.append(ops)
                note(every, s)
                break
    return {'steps': steps, 'what': what, 'seed': r.randrange(1 << 40), 'real': r.random() < .25, 'outdir': r.choice(mk.OUTDIRS[:11]),
            'broken': [r.choice([None, None, None, 'source', 'template', 'gone', 'blogcfile', 'die', 'kill', 'dielate', 'copy']) for _ in steps],
            'single': [r.random() < .15 for _ in steps]}


def note(every, s):
    for _, p, _ in sitegen.outputs(s):
        every[p] = 1
    for p in sitegen.tree(s, random.Random(0)):
        every['/' + os.path.normpath(p)] = 1


def fits(every, s):
    e = dict(every)
    note(e, s)
    return not any(p in e for p in sitegen.parents([x for x in e]))


def edit(r, s, g):
    x = r.random()
    posts, pages = s['posts'], s['pages']
    if x < .2 and posts:
        p = r.choice(posts)
        body(r, p, g)
        return 'edit post'
    if x < .25 and pages:
        body(r, r.choice(pages), g)
        return 'edit page'
    if x < .32 and posts:
        p = r.choice(posts)
        p['tags'] = [t for t in s['tags'] + ['other'] if r.random() < .5]
        return 'retag post'
    if x < .37:
        s['mark_' + r.choice(['main', 'atom'])] = '%d' % r.randrange(10 ** 6)
        return 'template'
    if x < .45:
        p = g.post(s['tags'])
        while p['date'] in [q['date'] for q in posts]:
            p['date'] = p['date'][:-2] + '%02d' % r.randrange(60)
        posts.insert(r.randrange(len(posts) + 1), p)
        return 'add post'
    if x < .52 and posts:
        del posts[r.randrange(len(posts))]
        return 'remove post'
    if x < .55 and len(posts) > 1:
        a, b = r.sample(range(len(posts)), 2)
        posts[a], posts[b] = posts[b], posts[a]
        return 'swap posts'
    if x < .58:
        pages.append(g.post(s['tags'], True))
        return 'add page'
    if x < .6 and pages:
        del pages[r.randrange(len(pages))]
        return 'remove page'
    if x < .63 and posts + pages:
        p = r.choice(posts + pages)
        p['slug'] = g.slug()
        return 'rename'
    if x < .67:
        t = r.choice(['foo', 'bar', 'new-tag', 'other', 'z'])
        if t in s['tags']:
            s['tags'].remove(t)
        else:
            s['tags'].append(t)
        return 'tag list'
    if x < .75:
        k = r.choice(sorted(sitegen.OPTS))
        if k in s['settings'] and r.random() < .4:
            del s['settings'][k]
        else:
            s['settings'][k] = r.choice(sitegen.OPTS[k])
        return 'setting ' + k
    if x < .79:
        s['globals'][r.choice(['SITE_TITLE', 'AUTHOR_NAME', 'BASE_DOMAIN', 'NEW_ONE'])] = 'v%d' % r.randrange(10 ** 6)
        return 'variable'
    if x < .82:
        if s['entry'] and r.random() < .5:
            s['entry'] = None
            s['settings'].pop('listing_entry')
        elif s['entry']:
            body(r, s['entry'], g)
        else:
            s['settings']['listing_entry'] = 'intro'
            s['entry'] = {'slug': 'intro', 'title': 'Intro', 'body': ['b%d' % r.randrange(1000)]}
        return 'listing entry'
    if x < .9 and s['files']:
        f = r.choice(sorted(s['files']))
        s['files'][f] = [r.randrange(10 ** 6), r.choice([0, 1, 5, 1023, 1024, 1025, 3000, 9000])]
        return 'edit copied file'
    dirs = [c for c in s['copy'] if c not in s['files']]
    if x < .94 and dirs:
        d = r.choice(dirs)
        s['files'][d + r.choice(['/', '/sub/', '/n/e/w/']) + 'new%d.css' % r.randrange(1000)] = [r.randrange(10 ** 6), r.choice([0, 7, 5000])]
        return 'new file in a copied directory'
    if x < .96 and dirs:
        d = r.choice(dirs)
        fs = [f for f in s['files'] if f.startswith(d + '/')]
        if len(fs) > 1:
            del s['files'][r.choice(fs)]
        return 'remove a file of a copied directory'
    if x < .98:
        f = 'extra%d.css' % r.randrange(1000)
        s['files'][f] = [r.randrange(10 ** 6), 100]
        s['copy'].insert(r.randrange(len(s['copy']) + 1), f)
        return 'new copied file'
    if s['copy']:
        c = s['copy'].pop(r.randrange(len(s['copy'])))
        for f in [f for f in s['files'] if f == c or f.startswith(c + '/')]:
            del s['files'][f]
        return 'no longer copied'
    return 'nothing'


def body(r, p, g):
    if r.random() < .5:
        p['title'] = sitegen.words(r, 2) + ' e%d' % r.randrange(10 ** 6)
    else:
        p['body'] = ['edited %d' % r.randrange(10 ** 6)] + p['body'][:2]
    if p.get('date') and r.random() < .2:
        p['date'] = p['date'][:4] + '-0%d' % r.randrange(1, 10) + p['date'][7:]


class Disk:
    """the site on disk and its modification times"""

    def __init__(self, d, out, r, real):
        self.d, self.out, self.r, self.real, self.have, self.ever = d, out, r, real, {}, set()
        self.clock = 10 ** 18 + r.randrange(10 ** 14)

    def path(self, p):
        return os.path.join(self.d, p)

    def outs(self):
        return [os.path.join(w, f) for w, _, fs in os.walk(self.out) for f in fs]

    def latest(self):
        return max([os.stat(f).st_mtime_ns for f in self.outs()] or [0])

    def put(self, p, data, newer):
        f = self.path(p)
        new = not os.path.lexists(f)
        sitegen.put(f, data)
        if self.real:
            last = self.latest()
            while newer and os.stat(f).st_mtime_ns <= last:
                time.sleep(.001)
                sitegen.put(f, data)
        elif new and not newer:
            t = self.clock - self.r.randrange(10 ** 16)
            os.utime(f, ns=(t, t))
        else:
            if self.r.random() < .6:
                self.clock += self.r.choice(STEPS)
            os.utime(f, ns=(self.clock, self.clock))

    def apply(self, t):
        changed = 0
        if not self.real:
            self.clock = max(self.clock, self.latest()) + self.r.choice(STEPS)
        for p in sorted(set(self.have) - set(t)):
            os.unlink(self.path(p))
            try:
                os.removedirs(os.path.dirname(self.path(p)))
            except OSError:
                pass
            changed += 1
        for p in sorted(t):
            if self.have.get(p) != t[p]:
                # a file that was never there may come with any time
                self.put(p, t[p], p in self.ever or not self.have or self.r.random() < .5)
                changed += 1
            self.ever.add(p)
        self.have = dict(t)
        return changed

    def settle(self):
        """move everything into the past, the outputs later than all they are made from"""
        if self.real:
            return
        for p in self.have:
            t = self.clock - self.r.choice([0, 1, NS, self.r.randrange(10 ** 15)])
            os.utime(self.path(p), ns=(t, t))
        last = self.clock
        for f in self.outs():
            t = self.clock + self.r.choice([1, 2, NS - 1, NS, NS + 1, self.r.randrange(1, 100 * NS)])
            last = max(last, t)
            os.utime(f, ns=(t, t))
        self.clock = last


def stamps(out):
    return {f: (os.stat(f).st_mtime_ns, os.stat(f).st_ino, os.stat(f).st_size) for f in out.outs()}


def run_case(ctx, case):
    r = random.Random(case['seed'])
    res = vlib.Res()
    top = ctx.fresh('w')
    d = os.path.join(top, 'site')
    os.mkdir(d)
    if case['outdir'] == 'oq/../z':
        os.mkdir(os.path.join(d, 'oq'))
    val, out = mk.outdir(case['outdir'], top, d)
    env = mk.env_for(ctx, OUTPUT_DIR=val)
    disk = Disk(d, out, r, case['real'])
    story = []
    for k, site in enumerate(case['steps']):
        story.append('step %d: %s' % (k, ', '.join(case['what'][k]) or '-'))
        t = sitegen.tree(site, random.Random(case['seed']))
        t = {p: x.encode('utf-8', 'surrogateescape') if isinstance(x, str) else x for p, x in t.items()}
        b = case['broken'][k]
        if b and broken(ctx, r, res, disk, env, site, t, b, top):
            story.append('build fails: ' + b)
            if res.viol:
                return res
            # what the failed build made has the current time
            disk.real = True
            disk.apply(t)
            disk.real = case['real']
        else:
            disk.apply(t)
        runs = [[]]
        if case['single'][k]:
            runs = [[x] for x in r.sample(sitegen.RULES, len(sitegen.RULES))]
        said = b''
        for rules in runs:
            p = mk.make(ctx, d, rules, env=env, site=site)
            said += p.out
            if res.crash(p, 'blogc-make'):
                return res
            if p.rc != 0:
                res.bad('status', 'blogc-make %r failed\n%s\n%s' % (rules, '\n'.join(story), mk.said(p)))
                return res
        # the same from nothing
        clean = os.path.join(top, 'clean%d' % k)
        p = mk.make(ctx, d, env=mk.env_for(ctx, OUTPUT_DIR=clean), site=site)
        if res.crash(p, 'blogc-make'):
            return res
        if p.rc != 0:
            res.bad('status', 'the clean build failed\n%s\n%s' % ('\n'.join(story), mk.said(p)))
            return res
        got = sitegen.read_tree(out) if os.path.isdir(out) else {}
        want = sitegen.read_tree(clean) if os.path.isdir(clean) else {}
        shutil.rmtree(clean, True)
        for f in sorted(want):
            res.n += 1
            if want[f] != got.get(f, 0):
                res.bad('stale', '%r is not that of a clean build: %r instead of %r\nmodification times: %s\n%s\n%s\n%s' % (
                    f, (got.get(f) or b'missing')[:600], (want[f] or b'directory')[:600], 'real' if case['real'] else 'set', '\n'.join(story),
                    said.decode('utf-8', 'replace')[-600:], t[site['blogcfile']].decode('utf-8', 'replace')))
                return res
        built = said.count(b'  BLOGC ') + said.count(b'  COPY ')
        res.feats['files built'] += built
        if k and built == 0:
            res.feats['builds with nothing to do'] += 1
        elif k and built < len([x for x in want if want[x] is not None]):
            res.feats['partial builds'] += 1
        # once more
        for _ in range(2):
            before = stamps(disk)
            p = mk.make(ctx, d, env=env, site=site)
            if res.crash(p, 'blogc-make'):
                return res
            if p.rc != 0 or stamps(disk) != before or b'  BLOGC ' in p.out or b'  COPY ' in p.out:
                res.bad('rebuilt', 'a build without a change built something\n%s\n%s' % ('\n'.join(story), mk.said(p)))
                return res
            res.n += 1
            disk.settle()
        for w in case['what'][k]:
            res.feats[w.split()[0] if w.startswith('setting') else w] += 1
    res.sig(case['what'], case['broken'], len(case['steps']), sorted(case['steps'][0]['settings'].items()))
    res.sample = {'history': story}
    return res


def broken(ctx, r, res, disk, env, site, t, how, top):
    """a build that fails; whether there was one"""
    bad = dict(t)
    posts = [p for p in site['posts']]
    main = sitegen.S(site, 'template_dir') + '/' + sitegen.S(site, 'main_template')
    args = dict(env)
    if how in ('source', 'gone') and posts:
        f = sitegen.source_path(site, r.choice(posts)['slug'], True)
        if how == 'gone':
            del bad[f]
        else:
            bad[f] = r.choice([b'', b'TITLE', b'TITLE: x\n---', b'not a source'])
    elif how == 'template':
        bad[main] = r.choice([b'{% block entry %}', b'{{ X', b'{% endif %}'])
    elif how == 'blogcfile':
        bad[site['blogcfile']] = r.choice([b'[', b'x=y', b'', t[site['blogcfile']][:-len(t[site['blogcfile']]) // 2] + b'\n[glob'])
    elif how == 'copy' and [f for f in site['copy'] if f in t]:
        del bad[r.choice([f for f in site['copy'] if f in t])]
    elif how in ('die', 'kill', 'dielate'):
        sh = os.path.join(top, 'die')
        n = r.choice([1, 2, 5]) if how == 'dielate' else 0
        with open(sh, 'w') as fp:
            # -p asks for a variable and passes
            fp.write('#!/bin/sh\nfor a; do case $a in -p) exec "$REAL" "$@";; esac; done\n')
            if n:
                fp.write('echo >> "$COUNT"; if [ $(wc -l < "$COUNT") -le %d ]; then exec "$REAL" "$@"; fi\n' % n)
            fp.write(DIE.split('\n', 1)[1] + ('kill -9 $$\n' if how != 'die' else 'exit 3\n'))
        os.chmod(sh, 0o755)
        args.update(BLOGC=sh, REAL=os.path.realpath(ctx.plain('blogc')), COUNT=os.path.join(top, 'count%d' % r.randrange(10 ** 9)))
    else:
        return False
    disk.apply(bad)
    p = mk.make(ctx, disk.d, env=args, site=site)
    res.crash(p, 'blogc-make')
    res.feats['failing builds' if p.rc else 'passing broken builds'] += 1
    return True


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
