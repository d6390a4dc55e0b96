"""C33: an invalid blogcfile is refused before anything is built, run or removed."""
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import mk  # noqa: E402
import sitegen  # noqa: E402
import vlib  # noqa: E402

PID = 'C33'
VARIANTS = ('asan', 'plain')
COUNT = {'quick': 1600, 'thorough': 60000}
RULE = ('generated sites whose blogcfile gets one mistake (a required variable missing or empty, a name of a variable that is not in capital '
        'letters, digits and underscores, malformed syntax, invalid UTF-8, unreadable file, unsupported setting, run_from_make outside of make), '
        'run with all rules over an empty and over an existing output directory; the stand-in for blogc and for the web server must not be '
        'run, no file may be made, changed or removed, the exit status must not be 0, and the message must name what is wrong; the same site '
        'with a harmless change instead must be built by the same command; distinct = different (mistake, rules, blogcfile)')
MIN_DISTINCT = 500
ASSUMPTIONS = ['temporary files below /tmp are not part of the site']
REQUIRED = ['AUTHOR_NAME', 'AUTHOR_EMAIL', 'SITE_TITLE', 'SITE_TAGLINE', 'BASE_DOMAIN']
STUB = '''#!/bin/sh
echo "$0 $*" >> "$CALLS"
exit 0
'''
ALL = sitegen.RULES + ['all', 'clean', 'atom_dump', 'watch', 'runserver', 'runserver:port=1', 'nonsense', 'all']
NEAR = '@[`/:^.,-{é\u00a0$;&|(`~!%*?"\'\\ '
HOSTILE = ['A;touch pwned;', 'A$(touch pwned)', 'A`touch pwned`', 'A|touch pwned|', 'A&touch pwned&', 'A>pwned', 'A B', 'A -o pwned', "A'", 'A"', 'A\\', '-D', '--help',
           'a', 'foo', 'Foo', 'FOo', 'fOO', '1A', '_A', '0', '_', 'Ä', 'A.B', 'A-B', 'A+', '*', 'A*', '?', '~', '%s%n', 'A%n', 'AUTHOR_NAMe', 'sITE_TITLE', 'BASE DOMAIN', '${A}', 'A{B}']
GOOD = ['A', 'Z', 'AZ', 'A0', 'Z9', 'A_', 'A__', 'Z_0', 'FOO_BAR', 'A1B2_', 'TITLE', 'X' * 200]
KINDS = ['missing', 'missing', 'empty', 'empty', 'name', 'name', 'name', 'near', 'near', 'near', 'syntax', 'syntax', 'utf8', 'file', 'legacy', 'make', 'none', 'none', 'none', 'none']


def gen(rng, i, tier):
    r = random.Random(rng.randrange(1 << 40))
    site = sitegen.generate(r, small=True)
    site['settings'].pop('run_from_make', None)
    kind = r.choice(KINDS)
    return {'site': site, 'kind': kind, 'seed': r.randrange(1 << 40), 'built': r.random() < .5,
            'rules': r.choice([[], [r.choice(ALL)], [r.choice(ALL)], r.sample(ALL, r.choice([2, 3, 9]))])}


def spoil(r, kind, site, text):
    """(what was done, text of the blogcfile, words that the message must have) or None"""
    lines = text.split('\n')
    glob = [k for k, l in enumerate(lines) if l.strip() == '[global]'][0]
    if kind in ('missing', 'empty'):
        name = r.choice(REQUIRED)
        at = [k for k, l in enumerate(lines) if l.split('=')[0].strip() == name]
        if len(at) != 1:
            return None
        if kind == 'missing':
            if r.random() < .5:
                del lines[at[0]]
            else:
                lines[at[0]] = r.choice(['#', ';', ' # ']) + lines[at[0]]
        else:
            lines[at[0]] = name + r.choice([' =', '=', ' = ""', ' =   ', '=""', '=\t'])
        return '%s %s' % (kind, name), '\n'.join(lines), [name]
    if kind in ('name', 'near'):
        if kind == 'near':
            c = r.choice(NEAR)
            name = r.choice(['%s', '%sA', 'A%s', 'A%sB', 'AB0%s', 'A_%s1', 'A9%s']) % c
            name = name.strip()
            if not name or name in GOOD or name[0] in '[;#':
                return None
            if not name.strip('A_1B09') and name[0] == 'A':
                return None
        else:
            name = r.choice(HOSTILE)
        v = r.choice(['x', '', '""', 'x y', ';touch pwned'])
        lines.insert(glob + 1 + r.randrange(0, len(site['globals'])) if r.random() < .5 else glob + 1, name + r.choice([' = ', '=']) + v)
        return '%s %r' % (kind, name), '\n'.join(lines), [name]
    if kind == 'syntax':
        how = r.choice(['before', 'no value', 'quoted', 'section', 'quote', 'item', 'escape', 'cut section', 'line in section'])
        if how == 'before':
            return how, r.choice(['x', 'A = B', 'global]', '"', 'é', '= x']) + '\n' + text, []
        if how == 'no value':
            lines.insert(glob + 1, r.choice(['FOO', 'a b', 'é', '"FOO"', ']']))
        elif how == 'quoted':
            lines.insert(glob + 1, 'FOO = "bar"' + r.choice(['x', ' x', '"', ' ""', '=', ' # c', ' ; c']))
        elif how == 'section':
            lines.insert(glob, '[foo\nbar]')
        elif how == 'line in section':
            lines.insert(glob, '[\nfoo]')
        elif how == 'quote':
            return how, text + '\n[more]\nA = "unterminated', []
        elif how == 'escape':
            return how, text + '\n[more]\nA = x\\', []
        elif how == 'item':
            return how, text + '\n[%s]\n"one" two\n' % r.choice(['tags', 'pages', 'copy', 'posts']), []
        elif how == 'cut section':
            return how, text + '\n[', []
        return how, '\n'.join(lines), []
    if kind == 'utf8':
        b = r.choice(['\udcff', '\udcc0\udc80', '\udced\udca0\udc80', '\udce9', '\udcf4\udc90\udc80\udc80', '\udc80'])
        k = r.randrange(len(text) + 1)
        return 'utf8', text[:k] + b + text[k:], []
    if kind == 'legacy':
        if site['settings'].get('atom_template') is not None:
            return None
        out = [l for l in text.split('\n')]
        if '[settings]' in out:
            out.insert(out.index('[settings]') + 1, 'atom_legacy_entry_id = ' + r.choice(['true', 'x', '1']))
        else:
            out += ['', '[settings]', 'atom_legacy_entry_id = true', '']
        return 'legacy', '\n'.join(out), ['atom_legacy_entry_id']
    if kind == 'make':
        out = [l for l in text.split('\n')]
        v = 'run_from_make = ' + r.choice(['true', '1', 'yes', 'On', 'Y'])
        if '[settings]' in out:
            out.insert(out.index('[settings]') + 1, v)
        else:
            out += ['', '[settings]', v, '']
        return 'make', '\n'.join(out), ['make']
    if kind == 'none':
        how = r.choice(['name', 'nothing', 'comment', 'no make', 'under make', 'section'])
        if how == 'name':
            name = r.choice(GOOD)
            lines.insert(glob + 1, name + ' = x')
            return 'harmless %s' % name, '\n'.join(lines), None
        if how == 'comment':
            lines.insert(glob + 1, r.choice(['# a = b', '; [', '  #"', '#', ';;']))
        elif how == 'section':
            return 'harmless', text + '\n[unknown]\nlower = x\n$(touch pwned) = x\n', None
        elif how in ('no make', 'under make'):
            v = 'run_from_make = ' + (r.choice(['false', '0', 'no', '', 'x', '""']) if how == 'no make' else 'true')
            if '[settings]' in lines:
                lines.insert(lines.index('[settings]') + 1, v)
            else:
                lines += ['', '[settings]', v, '']
        return 'harmless: ' + how, '\n'.join(lines), None
    return None


def run_case(ctx, case):
    r = random.Random(case['seed'])
    res = vlib.Res()
    site = case['site']
    top = ctx.fresh('w')
    d = os.path.join(top, 'site')
    os.mkdir(d)
    t = sitegen.tree(site, r)
    bf = site['blogcfile']
    text = t[bf] if isinstance(t[bf], str) else t[bf].decode('utf-8', 'surrogateescape')
    words, what = [], case['kind']
    if case['kind'] != 'file':
        s = spoil(r, case['kind'], site, text)
        if s is None:
            res.feats['not applicable'] += 1
            return res
        what, text, words = s
    stub = os.path.join(top, 'stub')
    with open(stub, 'w') as fp:
        fp.write(STUB)
    os.chmod(stub, 0o755)
    calls = os.path.join(top, 'calls')
    open(calls, 'w').close()
    if case['built']:
        for p, data in t.items():
            sitegen.put(os.path.join(d, p), data)
        p = mk.make(ctx, d, site=site, env=mk.env_for(ctx))
        if res.crash(p, 'blogc-make'):
            return res
    for p, data in t.items():
        sitegen.put(os.path.join(d, p), data)
    path = os.path.join(d, bf)
    if case['kind'] == 'file':
        how = r.choice(['gone', 'directory', 'dangling', 'loop', 'below a file'])
        what = 'file ' + how
        os.unlink(path)
        if how == 'directory':
            os.mkdir(path)
        elif how == 'dangling':
            os.symlink('nowhere', path)
        elif how == 'loop':
            os.symlink(os.path.basename(path), path)
        elif how == 'below a file':
            path = os.path.join(d, 'afile')
            open(path, 'w').close()
            path += '/blogcfile'
    else:
        with open(path, 'wb') as fp:
            fp.write(text.encode('utf-8', 'surrogateescape'))
    good = words is None
    rules = case['rules']
    if good:
        rules = [x for x in rules if x in sitegen.RULES + ['all']]
    env = vlib.base_env(BLOGC=stub, BLOGC_RUNSERVER=stub, CALLS=calls)
    for k in ('MAKEFLAGS',):
        env.pop(k, None)
    if what == 'harmless: under make':
        env['MAKEFLAGS'] = r.choice(['', 'k', '-j2'])
    before = snapshot(d)
    cmd = [ctx.asan('blogc-make')] + r.choice([[], [], ['-V'], ['-D'], ['-V', '-D']]) + ['-f', path if os.path.isabs(bf) or r.random() < .5 or case['kind'] == 'file' else bf] + rules
    p = vlib.run(cmd, env=env, cwd=d, timeout=20)
    res.n += 1
    desc = '%s, rules %r\nblogcfile %r' % (what, rules, text[:1500])
    if res.crash(p, desc):
        return res
    res.feats['%s%s' % (case['kind'], ', over a built site' if case['built'] else '')] += 1
    res.sig(what, rules, text)
    after = snapshot(d)
    with open(calls) as fp:
        ran = fp.read()
    if os.path.exists(os.path.join(d, 'pwned')):
        res.bad('injection', 'a command was run: ' + desc)
        return res
    if good:
        if p.rc != 0:
            res.bad('refused', 'a valid blogcfile was refused: %s\n%s' % (desc, mk.said(p)))
        elif not case['built'] and not rules and any(x[0] != 'copy' for x in sitegen.outputs(site)) and not ran:
            res.bad('nothing built', 'blogc was not run: %s\n%s' % (desc, mk.said(p)))
        elif ran:
            res.feats['builds seen'] += 1
        return res
    if p.rc == 0:
        res.bad('accepted', 'exit status 0: %s\n%s' % (desc, mk.said(p)))
    if ran:
        res.bad('run', 'blogc or the server was run (%s): %s' % (ran[:300], desc))
    if after != before:
        diff = [x for x in sorted(set(before) | set(after)) if before.get(x) != after.get(x)]
        res.bad('changed', 'files were made, changed or removed (%r): %s\n%s' % (diff[:10], desc, mk.said(p)))
    err = p.err.decode('utf-8', 'replace')
    if not err.strip():
        res.bad('silent', 'no message: ' + desc)
    for w in words:
        if w not in err:
            res.bad('message', 'the message does not name %r: %s\n%s' % (w, desc, mk.said(p)))
    if res.sample is None and len(text) < 500:
        res.sample = {'mistake': what, 'rules': rules, 'blogcfile': text, 'status': p.rc, 'message': err[:300]}
    return res


def snapshot(d):
    out = {}
    for w, ds, fs in os.walk(d):
        for x in ds + fs:
            f = os.path.join(w, x)
            s = os.lstat(f)
            out[os.path.relpath(f, d)] = (s.st_mode, s.st_size if x in fs else 0, s.st_mtime_ns, s.st_ino)
    return out


def shrink(case):
    if case['built']:
        yield dict(case, built=False)
    if len(case['rules']) > 1:
        for k in range(len(case['rules'])):
            yield dict(case, rules=case['rules'][:k] + case['rules'][k + 1:])


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
