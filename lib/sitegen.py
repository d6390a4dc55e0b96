"""Generated blogc-make sites, and an independent model of what blogcfile(5) says
they are built into."""
import hashlib
import math
import os
import time
import xml.etree.ElementTree as ET

DEFAULTS = {
    'content_dir': 'content', 'template_dir': 'templates', 'main_template': 'main.tmpl', 'source_ext': '.txt',
    'pagination_prefix': 'page', 'posts_per_page': '10', 'atom_posts_per_page': '10', 'html_ext': '/index.html',
    'index_prefix': '', 'post_prefix': 'post', 'tag_prefix': 'tag', 'html_order': 'DESC', 'atom_prefix': 'atom',
    'atom_ext': '.xml', 'atom_order': 'DESC', 'date_format': '%b %d, %Y, %I:%M %p GMT', 'blog_prefix': '',
}
RULES = ['index', 'atom', 'atom_tags', 'pagination', 'pagination_tags', 'posts', 'tags', 'pages', 'copy']
REQUIRED = ['AUTHOR_NAME', 'AUTHOR_EMAIL', 'SITE_TITLE', 'SITE_TAGLINE', 'BASE_DOMAIN']


def S(site, key):
    return site['settings'].get(key, DEFAULTS.get(key))


def posts_sorted(site):
    return (S(site, 'posts_sort') or '').lower() in ('1', 'y', 'yes', 'true', 'on')


# ---------------------------------------------------------------- paths

def join(*parts):
    return '/'.join(p for p in parts if p)


def place(parts, ext, name='index'):
    """parts + ext; with no parts, or for the page "index" at the top, the index of the directory"""
    blog, rest = parts[0], [p for p in parts[1:] if p]
    if not rest:
        if ext.startswith('/'):
            return join(blog) + ext if blog else ext[1:]
        return join(blog, name + ext)
    if rest == ['index'] and len(parts) == 3 and not parts[1] and ext.startswith('/'):
        return blog + ext if blog else ext[1:]
    return join(blog, *rest) + ext


def index_path(site):
    return place([S(site, 'blog_prefix'), S(site, 'index_prefix')], S(site, 'html_ext'))


def post_path(site, slug):
    return place([S(site, 'blog_prefix'), S(site, 'post_prefix'), slug], S(site, 'html_ext'))


def page_path(site, slug):
    return place(['', '', slug], S(site, 'html_ext'))


def source_path(site, slug, post):
    ext = S(site, 'source_ext')
    parts = [S(site, 'blog_prefix'), S(site, 'post_prefix'), slug] if post else ['', '', slug]
    return S(site, 'content_dir') + '/' + place(parts, ext)


def entry_path(site):
    return S(site, 'content_dir') + '/' + place([S(site, 'blog_prefix'), '', site['entry']['slug']], S(site, 'source_ext'))


def feed_path(site, tag=None):
    return place([S(site, 'blog_prefix'), S(site, 'atom_prefix')] + ([tag] if tag else []), S(site, 'atom_ext'))


def tag_path(site, tag):
    return place([S(site, 'blog_prefix'), S(site, 'tag_prefix'), tag], S(site, 'html_ext'))


def page_n(site, n):
    return place([S(site, 'blog_prefix'), S(site, 'pagination_prefix'), str(n)], S(site, 'html_ext'))


def tag_page_n(site, tag, n):
    return place([S(site, 'blog_prefix'), join(S(site, 'tag_prefix'), tag, S(site, 'pagination_prefix')), str(n)], S(site, 'html_ext'))


# ---------------------------------------------------------------- selection

def ordered(site, which):
    """the posts in the order of the listing"""
    posts = list(site['posts'])
    asc = S(site, which).lower() == 'asc'
    if posts_sorted(site):
        posts.sort(key=lambda p: p['date'], reverse=not asc)
    elif not asc:
        posts.reverse()
    return posts


def tagged(posts, tag):
    return [p for p in posts if tag is None or tag in p['tags']]


def outputs(site, rules=RULES):
    """[(rule, path, info)] in the order of the build"""
    out = []
    n = int(S(site, 'posts_per_page'))
    a = int(S(site, 'atom_posts_per_page'))
    posts, tags = site['posts'], site['tags']
    for rule in rules:
        if rule == 'index' and posts and n != 0:
            out.append((rule, index_path(site), {'tag': None, 'page': 1 if n > 0 else None, 'per': n, 'order': 'html_order'}))
        elif rule == 'atom' and posts and a != 0:
            out.append((rule, feed_path(site), {'tag': None, 'page': 1 if a > 0 else None, 'per': a, 'order': 'atom_order'}))
        elif rule == 'atom_tags' and posts and a != 0:
            for t in tags:
                out.append((rule, feed_path(site, t), {'tag': t, 'page': 1 if a > 0 else None, 'per': a, 'order': 'atom_order'}))
        elif rule == 'pagination' and posts and n > 0:
            for k in range(math.ceil(len(posts) / n)):
                out.append((rule, page_n(site, k + 1), {'tag': None, 'page': k + 1, 'per': n, 'order': 'html_order'}))
        elif rule == 'pagination_tags' and posts and n > 0:
            for t in tags:
                for k in range(math.ceil(len(tagged(posts, t)) / n)):
                    out.append((rule, tag_page_n(site, t, k + 1), {'tag': t, 'page': k + 1, 'per': n, 'order': 'html_order'}))
        elif rule == 'posts':
            for p in posts:
                out.append((rule, post_path(site, p['slug']), {'post': p}))
        elif rule == 'tags' and posts and n != 0:
            for t in tags:
                out.append((rule, tag_path(site, t), {'tag': t, 'page': 1 if n > 0 else None, 'per': n, 'order': 'html_order'}))
        elif rule == 'pages':
            for p in site['pages']:
                out.append((rule, page_path(site, p['slug']), {'post': p}))
        elif rule == 'copy':
            for f in copied(site):
                out.append((rule, f, {}))
    return out


def copied(site):
    seen = []
    for c in site['copy']:
        if c in site['files']:
            seen.append(c)
        else:
            seen += [f for f in sorted(site['files']) if f.startswith(c.rstrip('/') + '/')]
    return seen


def collision(site):
    """whether outputs would be built in each other's place, or sources be the same file"""
    dec = [p for r, p, i in outputs(site)]
    if len(set(dec)) != len(dec):
        return True
    s = set(dec)
    for p in dec:
        if not p or p.startswith('/') or '//' in p or p.endswith('/'):
            return True
    if parents(dec) & s:
        return True
    return clash(inputs(site))


def clash(names):
    s = set(names)
    if len(s) != len(names):
        return True
    for p in names:
        while '/' in p:
            p = p.rsplit('/', 1)[0]
            if p in s:
                return True
    return False


def inputs(site):
    out = [os.path.normpath(source_path(site, p['slug'], True)) for p in site['posts']]
    out += [os.path.normpath(source_path(site, p['slug'], False)) for p in site['pages']]
    if site.get('entry'):
        out.append(os.path.normpath(entry_path(site)))
    out.append(os.path.normpath(S(site, 'template_dir') + '/' + S(site, 'main_template')))
    if S(site, 'atom_template'):
        out.append(os.path.normpath(S(site, 'template_dir') + '/' + S(site, 'atom_template')))
    out.append(site['blogcfile'])
    return out + list(site['files'])


# ---------------------------------------------------------------- templates and what they give

HEAD = 'R[{{ MAKE_RULE }}]T[{{ MAKE_TYPE }}]S[{{ MAKE_SLUG }}]P[{{ IS_POST }}]G[{{ MAKE_TAGS }}]F[{{ FILTER_TAG }}]D[{{ DATE_FORMAT }}]E[{{ MAKE_ENV }}{{ MAKE_ENV_DEV }}]\n'
BODY = ('{% block entry %}ENTRY[{{ TITLE }}|{{ DATE_FORMATTED }}|{{ TAGS }}]{{ CONTENT }}END{% endblock %}'
        '{% block listing_once %}ONCE[{{ CURRENT_PAGE }}]\n{% endblock %}'
        '{% block listing_entry %}LE[{{ TITLE }}]{{ CONTENT }}END{% endblock %}'
        '{% block listing %}ITEM[{{ TITLE }}|{{ DATE_FORMATTED }}|{{ TAGS }}]{{ CONTENT }}END\n{% endblock %}'
        '{% block listing_empty %}EMPTY\n{% endblock %}')


def template(site, kind):
    g = ''.join('%s={{ %s }}\n' % (k, k) for k in sorted(site['globals']))
    return '<%s %s>\n' % (kind, site.get('mark_' + kind, '')) + HEAD + g + BODY + '</%s>\n' % kind


def strftime(site, date, fmt):
    return time.strftime(fmt, time.strptime(date, '%Y-%m-%d %H:%M:%S'))


def html(p):
    return ''.join('<p>%s</p>\n' % x for x in p['body'])


def page_of(site, info):
    posts = tagged(ordered(site, info['order']), info['tag'])
    if info['page'] is not None:
        posts = posts[(info['page'] - 1) * info['per']:info['page'] * info['per']]
    return posts


def item(site, p, fmt):
    return '%s|%s|%s' % (p['title'], strftime(site, p['date'], fmt) if p.get('date') else '', ' '.join(p['tags']) if p.get('tags') else '')


def expect(site, rule, info):
    """the text of a page built from template()"""
    feed = rule in ('atom', 'atom_tags')
    fmt = '%Y-%m-%dT%H:%M:%SZ' if feed else S(site, 'date_format')
    kind = 'atom' if feed else 'main'
    post = info.get('post')
    out = '<%s %s>\n' % (kind, site.get('mark_' + kind, ''))
    out += 'R[%s]T[%s]S[%s]P[%s]G[%s]F[%s]D[%s]E[%s]\n' % (
        rule, 'atom' if feed else 'page' if rule == 'pages' else 'post', post['slug'] if post else '', '1' if rule == 'posts' else '',
        ' '.join(site['tags']), info.get('tag') or '', fmt, 'dev1' if site.get('dev') else '')
    out += ''.join('%s=%s\n' % (k, site['globals'][k]) for k in sorted(site['globals']))
    if post:
        out += 'ENTRY[%s]%sEND' % (item(site, post, fmt), html(post))
    else:
        posts = page_of(site, info)
        out += 'ONCE[%s]\n' % (info['page'] if info['page'] else '')
        if site.get('entry') and not feed:
            out += 'LE[%s]%sEND' % (site['entry']['title'], html(site['entry']))
        out += ''.join('ITEM[%s]%sEND\n' % (item(site, p, fmt), html(p)) for p in posts) or 'EMPTY\n'
    return out + '</%s>\n' % kind


NS = '{http://www.w3.org/2005/Atom}'


def feed_of(site, info):
    """what a reader of the default feed must see"""
    base = site['globals']['BASE_DOMAIN'] + site['globals'].get('BASE_URL', '')
    fmt = '%Y-%m-%dT%H:%M:%SZ'
    posts = page_of(site, info)
    me = base + '/' + feed_path(site, info['tag'])
    return {
        'title': site['globals']['SITE_TITLE'] + (' - ' + info['tag'] if info['tag'] else ''),
        'subtitle': site['globals']['SITE_TAGLINE'],
        'id': me, 'self': me, 'alternate': base + '/',
        'updated': strftime(site, posts[0]['date'], fmt) if posts else '',
        'author': [site['globals']['AUTHOR_NAME'], site['globals']['AUTHOR_EMAIL']],
        'entries': [{'title': p['title'], 'id': base + '/' + post_path(site, p['slug']), 'link': base + '/' + post_path(site, p['slug']),
                     'updated': strftime(site, p['date'], fmt), 'published': strftime(site, p['date'], fmt), 'content': html(p),
                     'author': [site['globals']['AUTHOR_NAME'], site['globals']['AUTHOR_EMAIL']]} for p in posts]}


def feed_parse(data):
    """the same from the file; raises ET.ParseError or ValueError"""
    root = ET.fromstring(data)
    if root.tag != NS + 'feed':
        raise ValueError('root element %s' % root.tag)

    def one(e, tag):
        x = e.findall(NS + tag)
        if len(x) != 1:
            raise ValueError('%d elements %s' % (len(x), tag))
        return ''.join(x[0].itertext())

    def author(e):
        x = e.findall(NS + 'author')
        if len(x) != 1:
            raise ValueError('%d authors' % len(x))
        return [one(x[0], 'name'), one(x[0], 'email')]

    def links(e):
        d = {}
        for x in e.findall(NS + 'link'):
            rel = x.get('rel', 'alternate')
            if rel in d:
                raise ValueError('two links %s' % rel)
            d[rel] = x.get('href')
        return d
    li = links(root)
    out = {'title': one(root, 'title'), 'subtitle': one(root, 'subtitle'), 'id': one(root, 'id'), 'self': li.pop('self', None),
           'alternate': li.pop('alternate', None), 'updated': one(root, 'updated'), 'author': author(root), 'entries': []}
    if li:
        raise ValueError('links %r' % li)
    for e in root.findall(NS + 'entry'):
        li = links(e)
        out['entries'].append({'title': one(e, 'title'), 'id': one(e, 'id'), 'link': li.get('alternate'), 'updated': one(e, 'updated'),
                               'published': one(e, 'published'), 'content': one(e, 'content'), 'author': author(e)})
    return out


def difference(a, b, path=''):
    """the first difference of two structures"""
    if isinstance(a, dict):
        for k in a:
            d = difference(a[k], b.get(k), path + '.' + k)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        for k in range(max(len(a), len(b))):
            if k >= len(a) or k >= len(b):
                return '%s: %d instead of %d' % (path, len(b), len(a))
            d = difference(a[k], b[k], '%s[%d]' % (path, k))
            if d:
                return d
        return None
    return None if a == b else '%s: %r instead of %r' % (path, b, a)


# ---------------------------------------------------------------- writing

def file_bytes(spec):
    """spec: text, or [seed, size]"""
    if isinstance(spec, str):
        return spec.encode('utf-8', 'surrogateescape')
    seed, size = spec
    out, k = [], 0
    while 64 * k < size:
        out.append(hashlib.sha512(b'%d/%d' % (seed, k)).digest())
        k += 1
    return b''.join(out)[:size]


def source(p):
    h = 'TITLE: %s\n' % p['title']
    if p.get('date'):
        h += 'DATE: %s\n' % p['date']
    if p.get('tags'):
        h += 'TAGS: %s\n' % ' '.join(p['tags'])
    return h + '-----\n\n' + '\n\n'.join(p['body']) + '\n'


def ini(r, v, force=False):
    """v as a value of an INI file"""
    plain = v == v.strip(' \t\n\r\f\v') and not any(c in v for c in '\\"\n\r') and v and v[0] not in '#;['
    if plain and not force and r.random() < .8:
        return v
    return '"' + v.replace('\\', '\\\\').replace('"', '\\"') + '"'


def blogcfile(site, r):
    eq = r.choice([' = ', '=', ' =  ', '= '])
    secs = [('global', ['%s%s%s' % (k, eq, ini(r, v)) for k, v in site['globals'].items()])]
    if site['settings']:
        secs.append(('settings', ['%s%s%s' % (k, eq, ini(r, v)) for k, v in site['settings'].items()]))
    for name, items in (('posts', [p['slug'] for p in site['posts']]), ('pages', [p['slug'] for p in site['pages']]), ('tags', site['tags']), ('copy', site['copy'])):
        if items:
            secs.append((name, [ini(r, x) for x in items]))
    r.shuffle(secs)
    out = ''
    for name, lines in secs:
        out += '[%s]\n' % name + ''.join((r.choice(['', '', '', '# comment\n', '\n', '  ']) if r.random() < .2 else '') + x + '\n' for x in lines) + r.choice(['\n', ''])
    return out


def put(path, data):
    """a new version of a file, later than everything else that is there"""
    d = os.path.dirname(path)
    os.makedirs(d, exist_ok=True)
    if isinstance(data, str):
        data = data.encode('utf-8', 'surrogateescape')
    with open(path, 'wb') as fp:
        fp.write(data)


def tree(site, r):
    """{path relative to the site: content} of everything that is written by hand"""
    t = {}
    for p in site['posts']:
        t[source_path(site, p['slug'], True)] = source(p)
    for p in site['pages']:
        t[source_path(site, p['slug'], False)] = source(p)
    if site.get('entry'):
        t[entry_path(site)] = source(site['entry'])
    t[S(site, 'template_dir') + '/' + S(site, 'main_template')] = template(site, 'main')
    if S(site, 'atom_template'):
        t[S(site, 'template_dir') + '/' + S(site, 'atom_template')] = template(site, 'atom')
    for f, spec in site['files'].items():
        t[f] = file_bytes(spec)
    t[site['blogcfile']] = blogcfile(site, r)
    return t


def write(site, dir, r):
    for p, data in tree(site, r).items():
        put(os.path.join(dir, p), data)


def read_tree(top):
    """{relative path: bytes, or None for a directory, or ('link', target)}"""
    out = {}
    top = os.fsencode(top)
    for root, dirs, files in os.walk(top):
        for d in list(dirs):
            p = os.path.join(root, d)
            rel = os.fsdecode(os.path.relpath(p, top))
            out[rel] = ('link', os.readlink(p)) if os.path.islink(p) else None
        for f in files:
            p = os.path.join(root, f)
            rel = os.fsdecode(os.path.relpath(p, top))
            if os.path.islink(p):
                out[rel] = ('link', os.readlink(p))
            else:
                with open(p, 'rb') as fp:
                    out[rel] = fp.read()
    return out


def parents(paths):
    """the directories of these files; a backslash counts as a separator when directories are created, which leaves
    empty directories next to files with a backslash in their names: C15 and C16 do not mind"""
    s = set()
    for p in paths:
        for k, c in enumerate(p):
            if c == '/' or c == '\\':
                s.add(p[:k])
    return s


def judge_tree(site, got, rules=RULES, only=True):
    """what is wrong with the output directory: (key, message) or None; only: nothing else may be there"""
    want = {}
    for rule, path, info in outputs(site, rules):
        want[path] = (rule, info)
    files = {p for p, d in got.items() if d is not None}
    for p in sorted(want):
        if p not in files:
            return 'missing', 'no file %r (%s)\nthere are %r' % (p, want[p][0], sorted(files)[:40])
    if only:
        for p in sorted(files - set(want)):
            return 'extra', 'unexpected file %r' % p
        for p in sorted(set(got) - files - parents(want)):
            return 'extra', 'unexpected directory %r' % p
    for p, (rule, info) in want.items():
        w = wrong(site, rule, info, p, got[p])
        if w:
            return rule, 'file %r: %s' % (p, w)
    return None


def wrong(site, rule, info, path, data):
    """what is wrong with one built file, or None"""
    if rule == 'copy':
        w = file_bytes(site['files'][path])
        return None if data == w else 'not a copy: %d bytes instead of %d' % (len(data), len(w))
    if rule in ('atom', 'atom_tags') and not S(site, 'atom_template'):
        try:
            f = feed_parse(data)
        except (ET.ParseError, ValueError) as e:
            return 'feed: %s\n%s' % (e, data[:1500].decode('utf-8', 'replace'))
        want = feed_of(site, info)
        for e in want['entries'] + f['entries']:        # C21 is about the addresses of posts
            del e['id'], e['link']
        d = difference(want, f)
        return 'feed' + d if d else None
    w = expect(site, rule, info).encode('utf-8', 'surrogateescape')
    if data == w:
        return None
    k = next((k for k in range(min(len(w), len(data))) if w[k] != data[k]), min(len(w), len(data)))
    return 'differs at byte %d: %r instead of %r' % (k, data[max(0, k - 60):k + 60], w[max(0, k - 60):k + 60])


# ---------------------------------------------------------------- generation

WORDS = 'alpha beta gamma delta omega lorem ipsum dolor sit amet consectetur título ação 日本 Ünï'.split()
DATE_FORMATS = ['%Y-%m-%d', '%d/%m/%Y %H:%M', '%b %d, %Y', '%j %U', 'fixed', '%H:%M:%S on %A', '%% %y']


OPTS = {
    'content_dir': ['content', 'src/pages', '.', 'co nt', 'content/'], 'template_dir': ['templates', 'tpl/x', '.', 'ç'],
    'main_template': ['main.tmpl', 'base.html', 'sub/m.tmpl'], 'source_ext': ['.txt', '.md', '/index.txt', '-src', '.t'],
    'pagination_prefix': ['page', 'p', '', 'a/b', 'página'], 'posts_per_page': ['1', '2', '3', '5', '10', '0', '-1', '100', '-3'],
    'atom_posts_per_page': ['1', '2', '5', '0', '-1', '10'], 'html_ext': ['/index.html', '.html', '/i.htm', '.htm', '-x.html', '/index.xhtml'],
    'index_prefix': ['', 'home', 'a/index', 'i'], 'post_prefix': ['post', '', 'p', 'posts/all', 'blog'], 'tag_prefix': ['tag', '', 't', 'tags/all'],
    'html_order': ['ASC', 'DESC', 'asc', 'desc', 'Asc'], 'posts_sort': ['true', '1', 'yes', 'false', 'no', '0', 'on'],
    'atom_prefix': ['atom', '', 'feeds', 'f/x'], 'atom_ext': ['.xml', '/feed.xml', '.atom', '-feed.xml', 'x.rss', '.a/b.xml'], 'atom_order': ['ASC', 'DESC', 'asc'],
    'date_format': DATE_FORMATS, 'atom_template': ['feed.tmpl', 'a/feed.xml'], 'blog_prefix': ['', 'blog', 'b/c'], 'locale': ['C', 'C.UTF-8', 'POSIX'],
}


def words(r, n):
    return ' '.join(r.choice(WORDS) for _ in range(n))


class Gen:
    def __init__(self, r, slash=True):
        self.r = r
        self.n = 0
        self.slash = slash

    def slug(self):
        r = self.r
        self.n += 1
        s = r.choice(['p%d', 'post-%d', '%d', 'a_b%d', 'Título-%d', 'x.y%d', 'v%d.0', 'deep%d', 'a%d']) % self.n
        if self.slash and r.random() < .12:
            s = r.choice(['2020/', 'a/b/', 'x/']) + s
        return s

    def post(self, tags, page=False):
        r = self.r
        p = {'slug': self.slug(), 'title': words(r, r.choice([1, 2, 4])) + ' %d' % self.n, 'body': [words(r, r.choice([1, 5, 20])) for _ in range(r.choice([1, 1, 2, 3]))]}
        if not page or r.random() < .3:
            p['date'] = '%04d-%02d-%02d %02d:%02d:%02d' % (r.choice([1999, 2010, 2020, 2021, 2022, 2038]), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), self.n % 60)
        p['tags'] = [t for t in tags + ['other', 'unlisted'] if r.random() < .35] if not page or r.random() < .2 else []
        return p


def generate(r, small=False, slash=True):
    for _ in range(200):
        s = _generate(r, small, slash)
        if not collision(s):
            return s
    raise RuntimeError('no site without collisions')


def _generate(r, small, slash):
    g = Gen(r, slash)
    tags = r.sample(['foo', 'bar', 'foo-bar', 'fo', 'foobar', 'a', 'b', 'c++', 'été', '1', 'page', 'TAG', 'tag', 'index'], r.choice([0, 1, 2, 3] if small else [0, 1, 2, 3, 5]))
    n = r.choice([0, 1, 2, 3, 5] if small else [0, 1, 2, 3, 4, 6, 9, 11, 13])
    site = {'settings': {}, 'globals': {'AUTHOR_NAME': words(r, 2), 'AUTHOR_EMAIL': 'me@example.org', 'SITE_TITLE': words(r, 3), 'SITE_TAGLINE': words(r, 4),
                                        'BASE_DOMAIN': r.choice(['http://example.org', 'https://a.example'])},
            'tags': tags, 'copy': [], 'files': {}, 'entry': None, 'blogcfile': 'blogcfile', 'dev': r.random() < .15}
    for k in ('BASE_URL', 'A1', 'X_Y', 'GOOGLE_ID', 'DISQUS'):
        if r.random() < .25:
            site['globals'][k] = {'BASE_URL': r.choice(['', '/base', '/~me/b'])}.get(k, words(r, r.choice([1, 3])))
    site['posts'] = [g.post(tags) for _ in range(n)]
    site['pages'] = [g.post(tags, True) for _ in range(r.choice([0, 1, 2, 3]))]
    if site['pages'] and r.random() < .15:
        site['pages'][0]['slug'] = 'index'
        if r.random() < .5:
            site['settings']['index_prefix'] = 'blog-index'
    if site['posts'] and r.random() < .08:
        r.choice(site['posts'])['slug'] = 'index'
    dates = [p['date'] for p in site['posts']]
    if len(set(dates)) != len(dates):
        for k, p in enumerate(site['posts']):
            p['date'] = '2020-01-%02d 00:00:00' % (k + 1)
    p = r.choice([.0, .1, .25, .5])
    for k in sorted(OPTS):
        if r.random() < p:
            site['settings'][k] = r.choice(OPTS[k])
    if r.random() < .35 and n > 3:
        site['settings']['posts_per_page'] = r.choice(['1', '2', '3', '4'])
    if r.random() < .2:
        site['settings']['listing_entry'] = 'intro'
        site['entry'] = {'slug': 'intro', 'title': 'Intro ' + words(r, 2), 'body': [words(r, 4)]}
    for k in range(r.choice([0, 0, 1, 2, 4])):
        d = 'static%d' % k
        x = r.random()
        spec = [r.randrange(1000), r.choice([0, 1, 100, 1023, 1024, 1025, 4096, 5000, 70000])]
        if x < .4:
            f = d + r.choice(['.css', '/a.css', '', '/x/y z.bin'])
            site['files'][f] = spec
            site['copy'].append(f)
        else:
            for j in range(r.choice([1, 2, 5])):
                site['files'][d + '/' + r.choice(['', 'sub/', 'sub/deep/', '.hidden/', 's p/']) + 'f%d' % j + r.choice(['.png', '.html', '', '.txt'])] = [r.randrange(1000), r.choice([0, 1, 10, 1024, 3000])]
            site['copy'].append(d)
    return site
