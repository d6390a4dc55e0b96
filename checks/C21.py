"""C21: Atom feeds are well-formed and carry the right entries and addresses."""
import copy
import os
import random
import sys
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import mk  # noqa: E402
import sitegen  # noqa: E402
import vlib  # noqa: E402

PID = 'C21'
VARIANTS = ('asan', 'plain')
COUNT = {'quick': 1300, 'thorough': 60000}
RULE = ('sites with the default feed template, prefixes, extensions, tags, page sizes, orders and texts that are markup are built; each '
        'feed is parsed by an XML parser and compared with the model, entry by entry, and every address in it is looked up in the output '
        'directory, where the page of that very post must be; atom_dump is used as a custom template and must give the same feeds; '
        'distinct = different (settings, texts, number of posts)')
MIN_DISTINCT = 300
ASSUMPTIONS = ['texts hold no "]]>" as raw HTML and no control characters', 'template syntax in prefixes and extensions is left open']
MARK = ['Fish &amp; Chips', 'a &lt;b&gt; c', '<b>bold</b>', '&#233;t&#xe9;', '"quoted" \'text\'', 'x &quot; y', 'é 日本 😀', '<i a="1">n<b>e</b>st</i>', '&#38;#38;', 'a > b', '<br/>', '&amp;lt;', '<!-- c -->', '100%', '{ x }', 'a}}b',
        '<![CDATA[ <raw> & ]]>', '%s %n', '$HOME', '\\', 'tab\there']
BODY = [('plain words', '<p>plain words</p>\n'), ('a & b < c > d', '<p>a &amp; b &lt; c &gt; d</p>\n'), ('x ]]> y', '<p>x ]]&gt; y</p>\n'), ('# Plain title', '<h1 id="plain-title">Plain title</h1>\n'),
        ('* one\n* two ]]>', '<ul>\n<li>one</li>\n<li>two ]]&gt;</li>\n</ul>\n'), ('    code ]]> <x>', '<pre><code>code ]]&gt; &lt;x&gt;</code></pre>\n'), ('<div>&nbsp; <img src="a"> <unclosed></div>', '<div>&nbsp; <img src="a"> <unclosed></div>\n'),
        ('> quoted ]]>', '<blockquote><p>quoted ]]&gt;</p>\n</blockquote>\n'), ('**b** `c]]>`', '<p><strong>b</strong> <code>c]]&gt;</code></p>\n'), ('[l]]>](http://a/?x=1&y=2)', None), ('é 日本 😀', '<p>é 日本 😀</p>\n'), ('<![CDATA[', None)]
BODY = [b for b in BODY if b[1]]


def markup(r):
    s = ' '.join(r.choice(MARK) for _ in range(r.choice([1, 1, 2, 3])))
    return s


def gen(rng, i, tier):
    r = random.Random(rng.randrange(1 << 40))
    p = r.choice([0, .3, 1])
    for _ in range(200):
        odd = r.random() < .1
        site = sitegen.generate(r, small=r.random() < .5, slash=odd)
        if not odd and sitegen.S(site, 'source_ext') in ('-src', '/index.txt'):
            del site['settings']['source_ext']
        site['settings'].pop('atom_template', None)
        if not site['posts'] or (r.random() < .9 and int(sitegen.S(site, 'atom_posts_per_page')) == 0):
            continue
        for k in ('blog_prefix', 'post_prefix', 'atom_prefix', 'atom_ext', 'html_ext', 'atom_posts_per_page', 'atom_order', 'posts_sort'):
            if r.random() < .25:
                site['settings'][k] = r.choice(sitegen.OPTS[k])
        if r.random() < .2:
            site['settings'][r.choice(['blog_prefix', 'post_prefix', 'atom_prefix'])] = r.choice(['a.b', 'x-y', "it's", 'a b', '100%', '%s', '$x', 'é', 'a&amp;b'[:1], '~me', 'a%20b', '(x)'])
        if not sitegen.collision(site):
            break
    else:
        raise RuntimeError('no site without collisions')
    for k in ('SITE_TITLE', 'SITE_TAGLINE', 'AUTHOR_NAME', 'AUTHOR_EMAIL'):
        if r.random() < p:
            site['globals'][k] = markup(r)
    if r.random() < .3:
        site['globals']['BASE_URL'] = r.choice(['', '/base', '/~me/a.b', '/a/b', '/%7Eme'])
    for q in site['posts']:
        if r.random() < p:
            q['title'] = markup(r).replace('\t', ' ')
        q['raw'] = [r.randrange(len(BODY)) for _ in range(r.choice([1, 1, 2, 4]))] if r.random() < max(p, .2) else None
    return {'site': site, 'seed': r.randrange(1 << 40), 'dump': r.random() < .3}


def text_of(markup_):
    return ''.join(ET.fromstring('<x>%s</x>' % markup_).itertext())


def stem(site, slug):
    """what blogc takes for the name of the source"""
    f = sitegen.source_path(site, slug, True).rsplit('/', 1)[-1]
    return f[:f.rindex('.')] if '.' in f else f


def run_case(ctx, case):
    r = random.Random(case['seed'])
    res = vlib.Res()
    site = copy.deepcopy(case['site'])
    top = ctx.fresh('w')
    d = os.path.join(top, 'site')
    os.mkdir(d)
    bodies = {}
    for q in site['posts']:
        if q['raw']:
            bodies[q['slug']] = ''.join(BODY[k][1] for k in q['raw'])
            q['body'] = [BODY[k][0] for k in q['raw']]
            # two lists or code blocks in a row would be one
            kinds = [q['body'][k][:1] for k in range(len(q['body']))]
            for k in range(len(kinds) - 1, 0, -1):
                if kinds[k] == kinds[k - 1] and kinds[k] in '* >':
                    q['body'].insert(k, 'plain words')
            by = dict(BODY)
            bodies[q['slug']] = ''.join(by[b] for b in q['body'])
    sitegen.write(site, d, r)
    env = mk.env_for(ctx)
    p = mk.make(ctx, d, env=env, site=site)
    info = sitegen.blogcfile(site, random.Random(1))
    if res.crash(p, 'blogc-make'):
        return res
    if p.rc != 0:
        res.bad('status', 'blogc-make failed\n%s\n%s' % (mk.said(p), info))
        return res
    out = os.path.join(d, '_build')
    got = sitegen.read_tree(out) if os.path.isdir(out) else {}
    by = {q['slug']: q for q in site['posts']}
    base = site['globals']['BASE_DOMAIN'] + site['globals'].get('BASE_URL', '')
    feeds = [(rule, path, inf) for rule, path, inf in sitegen.outputs(site) if rule in ('atom', 'atom_tags')]
    for rule, path, inf in feeds:
        data = got.get(path)
        if data is None:
            res.bad('missing', 'no feed %r\n%s' % (path, info))
            return res
        try:
            f = sitegen.feed_parse(data)
        except (ET.ParseError, ValueError) as e:
            res.bad('not well-formed', '%r: %s\n%s\n%s' % (path, e, data.decode('utf-8', 'replace')[:3000], info))
            return res
        want = sitegen.feed_of(site, inf)
        for k in ('title', 'subtitle'):
            want[k] = text_of(want[k])
        want['author'] = [text_of(x) for x in want['author']]
        posts = sitegen.page_of(site, inf)
        for e, q in zip(want['entries'], posts):
            e['title'] = text_of(e['title'])
            e['author'] = want['author']
            if q['slug'] in bodies:
                e['content'] = bodies[q['slug']]
        alt = copy.deepcopy(want)
        odd = False
        for e, q in zip(alt['entries'], posts):
            s = stem(site, q['slug'])
            if s != q['slug'] or sitegen.post_path(site, s) != '/'.join(x for x in (sitegen.S(site, 'blog_prefix'), sitegen.S(site, 'post_prefix'), s) if x) + sitegen.S(site, 'html_ext'):
                odd = True
                e['id'] = e['link'] = base + '/' + '/'.join(x for x in (sitegen.S(site, 'blog_prefix'), sitegen.S(site, 'post_prefix'), s) if x) + sitegen.S(site, 'html_ext')
        w = sitegen.difference(want, f)
        res.n += 1 + len(posts)
        if w and odd and sitegen.difference(alt, f) is None:
            # reported with a key of its own, everything else is right
            res.bad('entry addresses made from the name of the source file', '%r: %s\n%s' % (path, w, info))
            res.feats['feeds with addresses of the known finding'] += 1
            continue
        if w:
            res.bad('feed', '%r: %s\n%s\n%s' % (path, w, data.decode('utf-8', 'replace')[:3000], info))
            return res
        # the addresses, looked up
        for e, q in zip(f['entries'], posts):
            at = got.get(e['link'][len(base) + 1:])
            if at is None or ('S[%s]' % q['slug']).encode() not in at or b'R[posts]' not in at:
                res.bad('address', '%r: nothing or another page is at the address %r of the post %r\n%s' % (path, e['link'], q['slug'], info))
                return res
            res.feats['addresses looked up'] += 1
        if got.get(f['self'][len(base) + 1:]) != data:
            res.bad('address', 'the feed %r says it is at %r\n%s' % (path, f['self'], info))
            return res
        res.feats['feeds'] += 1
        res.feats['entries'] += len(posts)
        res.feats['feeds without entries'] += not posts
    if case['dump'] and feeds:
        p = mk.make(ctx, d, ['atom_dump'], env=env, site=site)
        if res.crash(p, 'blogc-make atom_dump'):
            return res
        s2 = copy.deepcopy(site)
        s2['settings']['atom_template'] = 'dumped.tmpl'
        sitegen.put(os.path.join(d, sitegen.S(site, 'template_dir'), 'dumped.tmpl'), p.out)
        sitegen.put(os.path.join(d, site['blogcfile']), sitegen.blogcfile(s2, r))
        p = mk.make(ctx, d, ['atom', 'atom_tags'], env=dict(env, OUTPUT_DIR='other'), site=site)
        if res.crash(p, 'blogc-make'):
            return res
        other = sitegen.read_tree(os.path.join(d, 'other')) if os.path.isdir(os.path.join(d, 'other')) else {}
        for rule, path, inf in feeds:
            if p.rc != 0 or other.get(path) != got[path]:
                res.bad('dump', 'the template of atom_dump gives another feed %r: %r instead of %r\n%s' % (path, other.get(path), got[path], mk.said(p)))
                return res
            res.feats['feeds from atom_dump'] += 1
    res.sig(info, [q['title'] for q in site['posts']])
    res.sample = {'settings': site['settings'], 'titles': [q['title'] for q in site['posts']][:5], 'feeds': [x[1] for x in feeds]}
    return res


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
