"""C20: blogc-make reports every failed step in its exit status."""
import errno
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import mk  # noqa: E402
import sitegen  # noqa: E402
import vbuild  # noqa: E402
import vlib  # noqa: E402

PID = 'C20'
VARIANTS = ('asan', 'plain')
COUNT = {'quick': 2800, 'thorough': 50000}
RULE = ('sites are built by all or some rules while one step goes wrong: blogc fails or dies at its n-th run, a source, template, listing '
        'entry or copied file is missing or invalid, an output is in the way, a rule is unknown, the settings are invalid, a system call '
        'of blogc-make or of its blogc fails; whenever the step happened (the stand-ins log it, the model knows which rules need the file) '
        'the exit status must tell, and without it must be 0; distinct = different (kind of fault, rules, site)')
MIN_DISTINCT = 300
ASSUMPTIONS = ['a blogc that ends with status 78 when asked for a variable says that there is no such variable, which is no failure']
SCRIPT = '''#!/bin/sh
k=build
p=
for a; do
    case $p in -o) o=$a;; esac
    case $a in -p) k=ask;; esac
    p=$a
done
echo $k >> "$LOG"
n=$(grep -c "^$k" "$LOG")
if [ $k = "$KIND" ] && [ $n -eq "$NTH" ]; then
    echo hit >> "$HIT"
    if [ -n "$o" ] && [ -n "$PARTIAL" ]; then mkdir -p "$(dirname "$o")"; printf partial > "$o"; fi
    [ -n "$NOISE" ] && printf "$NOISE" >&2
    # the shell in between
    [ -n "$KILLP" ] && [ "$(cat /proc/$PPID/comm)" = sh ] && kill -$KILLP $PPID
    [ -n "$KILL" ] && kill -$KILL $$
    exit $CODE
fi
exec "$REAL" "$@"
'''
KINDS = ['stub', 'stub', 'stub', 'stub', 'source', 'source', 'template', 'template', 'rule', 'way', 'way', 'nobin', 'settings', 'fault', 'fault', 'fault', 'fault', 'sys', 'sys', 'tmp', 'copy', 'none', 'none']
BADSRC = ['', 'TITLE', 'nothing here', 'TITLE: x\nlower: y\n---\nx\n', ': x\n---\n', 'TITLE: é\udcff\n---\n']
BADTMPL = ['{% block entry %}', '{{ ', '{% endif %}', '{% if X == %}{% endif %}', '{% foreach A %}', '{% block foo %}{% endblock %}', 'x\udcff', '{% block entry %}{% ifdef A %}{% endblock %}{% endif %}', '{{ a }}']


def gen(rng, i, tier):
    r = random.Random(rng.randrange(1 << 40))
    kind = r.choice(KINDS)
    for _ in range(50):
        site = sitegen.generate(r, small=r.random() < .7)
        if sitegen.outputs(site):
            break
    rules = r.choice([[], [], [], ['all'], r.sample(sitegen.RULES, r.choice([1, 2, 4, 9]))])
    return {'kind': kind, 'site': site, 'rules': rules, 'seed': r.randrange(1 << 40), 'verbose': r.random() < .25, 'chld': r.random() < .15, 'prebuilt': r.random() < .25}


def needs(site, what, slug=None):
    """the rules that read a file"""
    posts = ['index', 'atom', 'atom_tags', 'pagination', 'pagination_tags', 'tags', 'posts']
    if what == 'post':
        return posts
    if what == 'page':
        return ['pages']
    if what == 'main':
        return ['index', 'pagination', 'pagination_tags', 'posts', 'tags', 'pages']
    if what == 'atom':
        return ['atom', 'atom_tags']
    if what == 'entry':
        return ['index', 'pagination', 'pagination_tags', 'tags']
    return ['copy']


def run_case(ctx, case):
    r = random.Random(case['seed'])
    res = vlib.Res()
    site, kind = case['site'], case['kind']
    top = ctx.fresh('w')
    d = os.path.join(top, 'site')
    os.mkdir(d)
    t = sitegen.tree(site, r)
    out = os.path.join(d, '_build')
    rules = list(case['rules'])
    eff = [x for x in (rules or ['all'])]
    eff = sitegen.RULES if 'all' in eff else eff
    outs = sitegen.outputs(site, eff)
    env = mk.env_for(ctx)
    fail, hit, what = None, None, kind
    pre = ['sh', '-c', 'trap "" CHLD; exec "$0" "$@"'] if case['chld'] else []

    def write():
        for p, data in t.items():
            sitegen.put(os.path.join(d, p), data)

    if case['prebuilt'] and kind in ('stub', 'source', 'template', 'fault', 'copy'):
        # everything is there, and everything is out of date
        write()
        p = mk.make(ctx, d, env=env, site=site)
        if res.crash(p, 'blogc-make'):
            return res
        if p.rc != 0:
            res.bad('status', 'blogc-make failed\n%s' % mk.said(p))
            return res
        for w, _, fs in os.walk(out):
            for f in fs:
                os.utime(os.path.join(w, f), (10 ** 9, 10 ** 9))
    variant = 'asan'
    if kind == 'stub':
        hit = os.path.join(top, 'hit')
        sh = os.path.join(top, 'blogc.sh')
        with open(sh, 'w') as fp:
            fp.write(SCRIPT)
        os.chmod(sh, 0o755)
        what = {'KIND': r.choice(['build', 'build', 'build', 'ask']), 'NTH': str(r.choice([1, 1, 2, 3, 5, 9, r.randrange(1, len(outs) + 2)])),
                'CODE': str(r.choice([1, 1, 2, 3, 77, 78, 126, 127, 128, 129, 130, 200, 255])), 'KILL': r.choice(['', '', 'KILL', 'SEGV', 'TERM', 'ABRT', 'PIPE', 'INT', 'HUP']),
                'KILLP': r.choice(['', '', '', '', 'KILL', 'TERM', 'ABRT', 'BUS']), 'PARTIAL': r.choice(['', 'y']), 'NOISE': r.choice(['', 'error\\n', '%%s%%n', 'x'])}
        if what['KIND'] == 'ask' and what['CODE'] == '78':
            what['CODE'] = '79'
        env.update(what, BLOGC=sh, REAL=os.path.realpath(ctx.plain('blogc')), LOG=os.path.join(top, 'calls'), HIT=hit)
    elif kind in ('source', 'template', 'copy'):
        files = []
        if kind == 'source':
            files = [('post', sitegen.source_path(site, p['slug'], True)) for p in site['posts']] + [('page', sitegen.source_path(site, p['slug'], False)) for p in site['pages']]
            if site['entry']:
                files.append(('entry', sitegen.entry_path(site)))
        elif kind == 'template':
            files = [('main', sitegen.S(site, 'template_dir') + '/' + sitegen.S(site, 'main_template'))]
            if sitegen.S(site, 'atom_template'):
                files.append(('atom', sitegen.S(site, 'template_dir') + '/' + sitegen.S(site, 'atom_template')))
        else:
            files = [('copy', c) for c in site['copy']]
        if not files:
            return res
        role, f = r.choice(files)
        how = r.choice(['gone', 'gone', 'invalid', 'invalid', 'invalid', 'dir', 'link'])
        if role == 'copy':
            if how in ('invalid', 'dir'):
                how = 'gone'
            for x in [x for x in t if x == f or x.startswith(f + '/')]:
                del t[x]
            files = []
        elif how == 'invalid':
            t[f] = r.choice(BADTMPL if kind == 'template' else BADSRC)
        else:
            del t[f]
        if how != 'invalid' and os.path.lexists(os.path.join(d, f)):
            __import__('shutil').rmtree(os.path.join(d, f)) if os.path.isdir(os.path.join(d, f)) else os.unlink(os.path.join(d, f))
        if how == 'dir':
            os.makedirs(os.path.join(d, f))
        elif how == 'link':
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            os.symlink('nowhere', os.path.join(d, f))
        what = '%s %s %r' % (how, role, f)
        if isinstance(t.get(f), str) and how == 'invalid':
            what += ' %r' % t[f]
        fail = any(x[0] in needs(site, role) for x in outs) or (role == 'copy' and 'copy' in eff)
        if role == 'entry' and not [x for x in outs if x[0] in needs(site, role)]:
            fail = False
    elif kind == 'rule':
        bad = r.choice(['nope', 'ind', 'indexx', 'INDEX', '', ' all', 'all ', 'index.html', 'clean-all', '_build', 'atom-tags', ':', 'nope:a=b', 'a' * 3000, '%s%n', 'é'])
        rules = list(rules)
        rules.insert(r.randrange(len(rules) + 1), bad)
        if bad == '':
            what = 'empty rule'
        what, fail = 'unknown rule %r' % bad, True
    elif kind == 'way':
        # something that is not a file in the place of an output, or not a directory in the place of one
        if not outs:
            return res
        f = os.path.join(out, r.choice(outs)[1])
        if r.random() < .5:
            os.makedirs(f)
        else:
            up = [os.path.join(out, x) for x in sitegen.parents([os.path.relpath(f, out)])] + [out]
            f = r.choice(up)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, 'w') as fp:
                fp.write('in the way')
        # up to date as far as times tell
        if r.random() < .5:
            os.utime(f, (1, 1))
        what, fail = '%r is in the way' % f, True
        if os.path.isdir(f) and os.stat(f).st_mtime > 1:
            # a directory that is later than the sources looks like an output that is up to date
            os.utime(f, (1, 1))
    elif kind == 'nobin':
        x = r.choice(['/nonexistent/blogc', top, d + '/blogcfile', 'no such program', '', '/dev/null'])
        env['BLOGC'] = x
        what, fail = 'BLOGC=%r' % x, any(o[0] != 'copy' for o in outs)
    elif kind == 'settings':
        b = t[site['blogcfile']]
        x = r.choice(['gone', 'empty', 'noglobal', 'utf8', 'dir', 'syntax', 'makeflags', 'legacy'])
        lines = b.split('\n')
        if x == 'noglobal':
            lines = [q for q in lines if not q.strip().startswith(r.choice(sitegen.REQUIRED[:1]))]
        elif x == 'syntax':
            lines.insert(r.randrange(len(lines)), r.choice(['[', '[unclosed', '[global', '[x]y']))
        elif x == 'utf8':
            lines.insert(r.randrange(len(lines)), '# \udcff\udcfe')
        elif x == 'empty':
            lines = []
        elif x in ('makeflags', 'legacy'):
            lines += ['[settings]', 'run_from_make = yes' if x == 'makeflags' else 'atom_legacy_entry_id = 1']
        t[site['blogcfile']] = '\n'.join(lines)
        if x in ('gone', 'dir'):
            del t[site['blogcfile']]
            if x == 'dir':
                os.mkdir(os.path.join(d, site['blogcfile']))
        what, fail = 'settings: ' + x, True
        if x == 'legacy' and 'atom_template' in site['settings']:
            fail = None
    elif kind == 'tmp':
        # the temporary feed template
        if 'atom_template' in site['settings']:
            return res
        hit = os.path.join(top, 'hit')
        op = r.choice(['open', 'write', 'write', 'write', 'short', 'close'])
        env.update(LD_PRELOAD=vbuild.preload('faults', ctx.b['plain']), FAULT_PATH='/blogc-make_XXXXXX', FAULT_OP=op, FAULT_AT=str(r.choice([0, 1, 50, 500, 900])), FAULT_ERRNO=str(errno.ENOSPC), FAULT_LOG=hit)
        variant, what = 'plain', 'temporary template: %s at %s' % (op, env['FAULT_AT'])
    elif kind == 'fault':
        # blogc or blogc-make can not write an output
        if not outs:
            return res
        f = r.choice(outs)[1]
        op = r.choice(['open', 'write', 'write', 'close', 'mkdir'])
        hit = os.path.join(top, 'hit')
        p = '_build/' + f
        if op == 'mkdir':
            p = os.path.dirname(p)
        env.update(LD_PRELOAD=vbuild.preload('faults', ctx.b['plain']), FAULT_PATH='/' + p, FAULT_OP=op, FAULT_AT=str(r.choice([0, 0, 1, 10, 100])), FAULT_ERRNO=str(r.choice([errno.ENOSPC, errno.EIO, errno.EACCES])), FAULT_LOG=hit)
        variant, what = 'plain', '%s of %r fails at %s' % (op, p, env['FAULT_AT'])
    elif kind == 'sys':
        op = r.choice(['fork', 'pipe', 'pipe', 'poll'])
        hit = os.path.join(top, 'hit')
        env.update(LD_PRELOAD=vbuild.preload('faults', ctx.b['plain']), FAULT_OP=op, FAULT_AT=str(r.choice([0, 0, 1, 2, 3, 7, 11])), FAULT_ERRNO=str(r.choice([errno.EAGAIN, errno.EMFILE, errno.ENOMEM])), FAULT_LOG=hit, FAULT_IN='blogc-make')
        variant, what = 'plain', '%s number %s fails' % (op, env['FAULT_AT'])
    write()
    if kind == 'settings' and 'dir' in what:
        pass
    if case['prebuilt']:
        for p in t:
            os.utime(os.path.join(d, p), (10 ** 9 + 5, 10 ** 9 + 5))
    p = mk.make(ctx, d, rules, env=env, site=site, args=['-V'] if case['verbose'] else [], variant=variant, prefix=pre)
    info = '%s, rules %r%s%s\n%s\n%s' % (what, rules, ', SIGCHLD ignored' if case['chld'] else '', ', over an older build' if case['prebuilt'] else '', mk.said(p), t.get(site['blogcfile'], ''))
    if res.crash(p, 'blogc-make'):
        return res
    if hit:
        fail = os.path.exists(hit) and env.get('FAULT_OP') != 'short'
        if kind == 'tmp' and fail and not any(o[0].startswith('atom') for o in outs):
            fail = None
    res.n += 1
    if not fail and kind in ('source', 'nobin') and site['posts'] and 'pagination_tags' in eff:
        fail = None     # it asks blogc for its outputs, there may be none
    elif fail is None and kind == 'none':
        fail = False
    if fail is None:
        return res
    if fail and p.rc == 0:
        res.bad('unreported', 'exit status 0: ' + info)
        return res
    if p.rc is not None and (p.rc < 0 or p.rc > 255):
        res.bad('killed', 'not an exit status: %s: %s' % (p.rc, info))
        return res
    if not fail and p.rc != 0:
        res.bad('status', 'exit status %s without a failure: %s' % (p.rc, info))
        return res
    res.feats['%s %s' % (kind, 'failed' if fail else 'did not matter')] += 1
    if not fail and kind != 'rule':
        got = sitegen.read_tree(out) if os.path.isdir(out) else {}
        w = sitegen.judge_tree(site, got, [x for x in sitegen.RULES if x in eff], False)
        if w:
            res.bad('wrong', 'exit status 0, but %s: %s' % (w[1], info))
            return res
    if fail and case['seed'] % 3 == 0 and kind in ('stub', 'fault', 'sys', 'tmp'):
        # and once more without the fault: nothing of it may stay
        env2 = mk.env_for(ctx)
        p = mk.make(ctx, d, env=env2, site=site)
        if res.crash(p, 'blogc-make'):
            return res
        got = sitegen.read_tree(out) if os.path.isdir(out) else {}
        w = sitegen.judge_tree(site, got) if p.rc == 0 else ('status', mk.said(p))
        if w:
            res.bad('after', 'the next build without the fault is wrong: %s: %s' % (w[1], info))
            return res
        res.feats['repeated'] += 1
    res.sig(kind, what, rules, case['seed'])
    res.sample = {'what': what, 'rules': rules, 'status': p.rc}
    return res


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
