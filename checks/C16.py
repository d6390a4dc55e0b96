"""C16: settings reach blogc byte for byte, whatever characters they contain."""
import os
import random
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import mk  # noqa: E402
import sitegen  # noqa: E402
import vlib  # noqa: E402

PID = 'C16'
VARIANTS = ('asan', 'plain')
HARNESSES = {'plain': ['stub']}
COUNT = {'quick': 800, 'thorough': 40000}
RULE = ('sites whose global variables, tags, slugs, paths, prefixes, extensions, formats, locale, output directory and program paths '
        'hold shell syntax, quotes, blanks, control and non-ASCII characters; the built pages must show exactly these values under '
        'exactly these names, nothing else may be created, and a recorder stands in for every command the values try to run; '
        'distinct = different values')
MIN_DISTINCT = 400
ASSUMPTIONS = ['template syntax inside of prefixes and extensions is left open for the built-in feed template, which is made from them',
               'line breaks and NUL bytes in paths are left open']
CMDS = ['pwn', 'touch', 'id', 'ls', 'cat', 'rm', 'x', 'true', 'echo1', 'sh', 'blogc', 'env', 'PWN']
BITS = ["'", '"', '$', '`', '\\', '%', ' ', ';', '&', '|', '>', '<', '(', ')', '*', '?', '[', ']', '{', '}', '~', '#', '!', '=', ',', '^', '@', ':', '-', '--', '+', '.',
        '\t', '\x01', '\x1b', '\x7f', 'é', 'ß', '日本', '😀', '\u00a0', '\u2028', 'a', 'B', '0', '$(pwn)', '`pwn`', '${HOME}', '$HOME', ';pwn;', '&&pwn', '||pwn', '|pwn', '&pwn&',
        "';pwn;'", "'$(pwn)'", '";pwn;"', '"$(pwn)"', "'\\''", "\\'", '\\"', '\\\\', '\\n', '%s', '%n', '%d%d', '%%', '$$', '$0', '$1', '$@', '$IFS', '-e', '-n', '-D', '{{ SITE_TITLE }}', '{%', '%}', '{{',
        '<b>', '&amp;', '<(pwn)', '>pwned', '> pwned', '!!', '\\$', "$'pwn'", '\\`pwn\\`', ' -D X=y', ' -o pwned', '# c', "'\"'\"'"]
WHOLE = ["'", '"', '\\', '$(pwn)', '`pwn`', "'; pwn; '", "$(pwn > pwned)", "a'b", "''", "'''", '-', '--', '-D', '-o', '-h', '-v', '-x', '=', '%', '%s%s%s%n', '~', '~root', '*', '?', '!', '#x', ';', '[a]', '\\n',
         '$((1/0))', '${x?y}', '"$(pwn)"', "\\';pwn;\\'", '{a,b}', '&', '()', 'é', '\t', ' ', '  two  blanks  ', '\\\\', "it's", '"x', "x'", '\\']


def text(r, nl=True):
    x = r.random()
    if x < .35:
        s = r.choice(WHOLE)
    elif x < .4 and nl:
        s = r.choice(['a\nb', "a\n$(pwn)\n'", '\n', "'\npwn\n'", 'x' * 5000, "'" * 3000, '$(pwn)' * 300, '😀' * 900, "'\n"])
    else:
        s = ''.join(r.choice(BITS) for _ in range(r.choice([1, 2, 3, 5, 8])))
    return s


def name(r, used, n):
    """one component of a path"""
    for _ in range(50):
        s = text(r, False)
        if r.random() < .3:
            s = s + r.choice(['x', '%d' % n])
        s = s.replace('/', '').replace('\n', '').strip()
        # no-break and other wide blanks are letters for a path
        if s in ('', '.', '..') or len(s.encode()) > 150 or s in used or s != s.strip(' \t'):
            continue
        used.add(s)
        return s
    used.add('n%d' % n)
    return 'n%d' % n


def gen(rng, i, tier):
    r = random.Random(rng.randrange(1 << 40))
    if i % 50 == 7:
        return {'kind': 'runserver', 'seed': r.randrange(1 << 40)}
    for _ in range(100):
        site = mkname(r)
        if not sitegen.collision(site):
            break
    else:
        raise RuntimeError('no site without collisions')
    return {'kind': 'build', 'site': site, 'seed': r.randrange(1 << 40), 'outdir': r.random() < .3, 'blogc': r.random() < .2, 'dir': r.random() < .3, 'verbose': r.random() < .15}


def mkname(r):
    site = sitegen.generate(r, small=True, slash=False)
    used, n = set(), 0
    site['settings'].setdefault('atom_template', 'feed.tmpl')
    p = r.choice([.2, .5, 1])
    for k in site['globals']:
        if r.random() < p:
            site['globals'][k] = text(r) or 'x'
    for k in ('Z', 'V1', 'EMPTY_'):
        if r.random() < .3:
            site['globals'][k] = text(r)
    ren = {}
    for t in site['tags']:
        n += 1
        ren[t] = name(r, used, n) if r.random() < p else t
        ren[t] = ''.join(c for c in ren[t] if c not in ' \t\n\r\f\v\x1c\x1d\x1e\x1f') or t
    if len(set(ren.values())) == len(ren):
        site['tags'] = [ren[t] for t in site['tags']]
        for q in site['posts'] + site['pages']:
            q['tags'] = [ren.get(t, t) for t in q['tags']]
    for q in site['posts'] + site['pages']:
        if r.random() < p and q['slug'] != 'index':
            n += 1
            q['slug'] = name(r, used, n)
    for k in ('content_dir', 'template_dir', 'main_template', 'pagination_prefix', 'index_prefix', 'post_prefix', 'tag_prefix', 'atom_prefix', 'blog_prefix', 'atom_template'):
        if r.random() < p / 3:
            n += 1
            site['settings'][k] = name(r, used, n)
    for k, d in (('source_ext', '.'), ('html_ext', '.'), ('atom_ext', '.x')):
        if r.random() < p / 3:
            n += 1
            site['settings'][k] = d + name(r, used, n)
    if r.random() < p / 2:
        s = text(r, False).replace('%', '%%')
        site['settings']['date_format'] = s + r.choice([' %Y', '%m%d', '', '%H']) or '%Y'
    if r.random() < p / 2:
        site['settings']['locale'] = text(r, False)
    if site['copy'] and r.random() < p:
        f = site['copy'][0]
        n += 1
        g = name(r, used, n)
        if f in site['files'] and '/' not in f:
            site['files'][g] = site['files'].pop(f)
            site['copy'][0] = g
        elif f not in site['files']:
            site['files'] = {(g + x[len(f):] if x.startswith(f + '/') else x): y for x, y in site['files'].items()}
            site['copy'][0] = g
    return site


def strftime(site, date, fmt):
    import time
    t = time.strptime(date, '%Y-%m-%d %H:%M:%S')
    out, k = '', 0
    while k < len(fmt):
        if fmt[k] == '%' and k + 1 < len(fmt):
            out += '%' if fmt[k + 1] == '%' else time.strftime('%' + fmt[k + 1], t)
            k += 2
        else:
            out += fmt[k]
            k += 1
    return out


sitegen.strftime = strftime


def bindir(ctx, top):
    d = os.path.join(top, 'bin')
    os.mkdir(d)
    stub = os.path.realpath(os.path.join(ctx.b['plain'], 'stub'))
    shutil.copy(stub, os.path.join(d, 'pwn'))
    for c in CMDS[1:]:
        os.link(os.path.join(d, 'pwn'), os.path.join(d, c))
    return d


def log(path):
    if not os.path.exists(path):
        return []
    with open(path) as fp:
        return [[bytes.fromhex(x[1:] if k > 1 else x) for k, x in enumerate(line.strip('\n').split(' ')) if x != ''] for line in fp]


def run_case(ctx, case):
    r = random.Random(case['seed'])
    res = vlib.Res()
    top = ctx.fresh('w')
    bin = bindir(ctx, top)
    lg = os.path.join(top, 'log')
    if case['kind'] == 'runserver':
        runserver(ctx, res, r, top, bin, lg)
        return res
    site = case['site']
    used = set()
    d = os.path.join(top, name(r, used, 1) if case['dir'] else 'site')
    os.mkdir(d)
    sitegen.write(site, d, r)
    od = name(r, used, 2) if case['outdir'] else None
    out = os.path.join(d, od or '_build')
    if od and (od in {x.split('/')[0] for x in sitegen.inputs(site)} or od.startswith('~')):
        od, out = None, os.path.join(d, '_build')
    env = mk.env_for(ctx, OUTPUT_DIR=od, PATH=bin, STUB_LOG=lg, HOME=top)
    if case['blogc']:
        # odd places for blogc itself
        bd = os.path.join(top, name(r, used, 3))
        if not os.path.exists(bd):
            os.mkdir(bd)
            os.link(os.path.realpath(ctx.plain('blogc')), os.path.join(bd, 'x')) if os.stat(ctx.plain('blogc')).st_dev == os.stat(bd).st_dev else shutil.copy(ctx.plain('blogc'), os.path.join(bd, 'x'))
            env['BLOGC'] = os.path.join(bd, 'x')
    before = sitegen.read_tree(top)
    p = mk.make(ctx, d, env=env, site=site, args=['-V'] if case['verbose'] else [])
    info = 'OUTPUT_DIR %r, directory %r, BLOGC %r\n%s' % (od, d, env['BLOGC'], sitegen.blogcfile(site, r))
    if res.crash(p, 'blogc-make'):
        return res
    calls = log(lg)
    if calls:
        res.bad('command', 'a value was run as a command: %r\n%s' % (calls[:3], info))
        return res
    if p.rc != 0:
        res.bad('status', 'blogc-make failed\n%s\n%s' % (mk.said(p), info))
        return res
    got = sitegen.read_tree(out) if os.path.isdir(out) else {}
    w = sitegen.judge_tree(site, got)
    if w:
        res.bad(w[0], '%s\n%s' % (w[1], info))
        return res
    after = sitegen.read_tree(top)
    rel = os.path.relpath(out, top)
    odd = sitegen.parents([rel + '/'])
    for x in sorted(set(after) | set(before)):
        if x == rel or x.startswith(rel + '/') or (x in odd and x not in before and after[x] is None):
            continue
        if before.get(x, 0) != after.get(x, 0):
            res.bad('elsewhere', 'changed outside of the output directory: %r\n%s' % (x, info))
            return res
    res.n += len(got)
    res.feats['files compared'] += len(got)
    res.feats['hostile slugs'] += sum(not q['slug'].isalnum() for q in site['posts'] + site['pages'])
    res.feats['hostile tags'] += sum(not t.isalnum() for t in site['tags'])
    for k in site['settings']:
        if not all(c.isalnum() or c in ' ./-_' for c in site['settings'][k]):
            res.feats['hostile ' + k] += 1
    res.sig(sorted(site['globals'].items()), sorted(site['settings'].items()), site['tags'], [q['slug'] for q in site['posts']])
    res.sample = {'globals': site['globals'], 'settings': site['settings'], 'tags': site['tags'], 'slugs': [q['slug'] for q in site['posts']]}
    return res


def runserver(ctx, res, r, top, bin, lg):
    """the arguments of the runserver rule, and of the program it starts"""
    d = os.path.join(top, 'site')
    os.mkdir(d)
    site = sitegen.generate(r, small=True)
    site['posts'], site['pages'], site['tags'], site['copy'] = [], [], [], []
    sitegen.write(site, d, r)
    used = set()
    bd = os.path.join(top, name(r, used, 3) + 'z')
    os.mkdir(bd)
    exe = os.path.join(bd, 'server')
    os.link(os.path.join(bin, 'pwn'), exe)
    args = {k: text(r, False).replace(',', '') for k in r.sample(['host', 'port', 'threads'], r.choice([1, 2, 3]))}
    # '=' ends a name, what follows a value starts the next one
    args = {k: v.replace('=', '') or 'x' for k, v in args.items()}
    od = name(r, used, 4)
    env = mk.env_for(ctx, OUTPUT_DIR=od, PATH=bin, STUB_LOG=lg, HOME=top, BLOGC_RUNSERVER=exe)
    p = mk.make(ctx, d, ['runserver:' + ','.join('%s=%s' % x for x in args.items())], env=env, site=site)
    if res.crash(p, 'blogc-make runserver'):
        return
    calls = log(lg)
    want = []
    for k, o in (('host', '-t'), ('port', '-p'), ('threads', '-m')):
        if k in args:
            want += [o, args[k]]
    want = [os.fsencode(x) for x in want + [os.path.join(d, od)]]
    res.n += 1
    if len(calls) != 1 or calls[0][2:] != want:
        res.bad('runserver', 'the web server was run as %r, expected the arguments %r\n%s' % (calls, want, mk.said(p)))
        return
    res.feats['runserver calls'] += 1
    res.sig(args, od)


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
