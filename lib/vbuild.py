"""Build /repo's current working tree with sanitizers, outside /repo.

Every variant is keyed by a hash of all sources and flags, so a check always
runs a binary made from the tree as it is now."""
import concurrent.futures
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.build')

ASAN = ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
        '-fno-sanitize-recover=all', '-fno-sanitize=pointer-overflow,function']
VARIANTS = {
    # clang's pointer-overflow check is off: it reports "NULL + 1" that is
    # computed and discarded; 'function' is off: it reports the usual C idiom of
    # freeing through a void (*)(void*) callback.  No user can observe either.
    'asan': ('clang', ASAN),
    'tsan': ('clang', ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=thread']),
    'msan': ('clang', ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=memory', '-fno-sanitize-memory-use-after-dtor']),
    'plain': ('gcc', ['-O2', '-g']),
    'fuzz': ('clang', ASAN + ['-fsanitize=fuzzer-no-link']),
}

CONFIG_H = '''#ifndef __CONFIG_H
#define __CONFIG_H
#define PACKAGE_VERSION "0.0.0"
''' + '\n'.join('#define HAVE_' + x for x in '''GETRUSAGE GETHOSTNAME ARPA_INET_H
DIRENT_H ERRNO_H FCNTL_H LIBGEN_H LIMITS_H NETDB_H NETINET_IN_H SIGNAL_H
SYSEXITS_H SYS_RESOURCE_H SYS_SOCKET_H SYS_STAT_H SYS_TIME_H SYS_TYPES_H
SYS_WAIT_H TIME_H UNISTD_H'''.split()) + '\n#endif\n'

DIRS = ['common', 'blogc', 'blogc-make', 'blogc-runserver', 'blogc-git-receiver']


class BuildError(Exception):
    pass


def src_hash(extra=b''):
    h = hashlib.sha256()
    for root, dirs, files in os.walk(os.path.join(REPO, 'src')):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            if not f.endswith(('.c', '.h', '.txt')):
                continue
            h.update(os.path.relpath(p, REPO).encode() + b'\0')
            with open(p, 'rb') as fp:
                h.update(fp.read() + b'\0')
    h.update(extra)
    return h.hexdigest()[:20]


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout.decode('utf-8', 'replace'))


def build(variant='asan', harnesses=()):
    """Returns the directory that holds blogc, blogc-make, blogc-runserver,
    blogc-git-receiver, blogc-embedded, lib*.a and the named harnesses."""
    cc, flags = VARIANTS[variant]
    with open(os.path.abspath(__file__), 'rb') as fp:
        me = fp.read()
    key = src_hash(me + variant.encode())
    out = os.path.join(CACHE, '%s-%s' % (variant, key))
    if not os.path.exists(os.path.join(out, '.done')):
        os.makedirs(CACHE, exist_ok=True)
        # keep the cache small: drop older builds of this variant
        old = sorted(glob.glob(os.path.join(CACHE, variant + '-*')), key=os.path.getmtime)
        for o in old[:-2]:
            shutil.rmtree(o, ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix='tmp-', dir=CACHE)
        with open(os.path.join(tmp, 'config.h'), 'w') as fp:
            fp.write(CONFIG_H)
        jobs = []
        objs = {d: [] for d in DIRS}
        mains = {}
        base = [cc, '-std=gnu11', '-D_GNU_SOURCE', '-DHAVE_CONFIG_H', '-I' + tmp, '-w'] + flags

        def obj(src, name, defs=()):
            o = os.path.join(tmp, name + '.o')
            jobs.append(base + list(defs) + ['-c', src, '-o', o])
            return o

        for d in DIRS:
            for src in sorted(glob.glob(os.path.join(REPO, 'src', d, '*.c'))):
                b = os.path.basename(src)[:-2]
                o = obj(src, d + '__' + b)
                if b == 'main':
                    mains[d] = o
                else:
                    objs[d].append(o)
        emb = [obj(os.path.join(REPO, 'src/blogc/main.c'), 'emb__blogc', ['-DMAKE_EMBEDDED']),
               obj(os.path.join(REPO, 'src/blogc-make/main.c'), 'emb__make', ['-DMAKE_EMBEDDED'])]
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count()) as ex:
            list(ex.map(_run, jobs))
        links = []

        def link(name, os_):
            links.append([cc] + flags + os_ + ['-o', os.path.join(tmp, name), '-lm', '-lpthread'])
        link('blogc', [mains['blogc']] + objs['blogc'] + objs['common'])
        link('blogc-make', [mains['blogc-make']] + objs['blogc-make'] + objs['common'])
        link('blogc-runserver', [mains['blogc-runserver']] + objs['blogc-runserver'] + objs['common'])
        link('blogc-git-receiver', [mains['blogc-git-receiver']] + objs['blogc-git-receiver'] + objs['common'])
        link('blogc-embedded', emb + objs['blogc'] + objs['blogc-make'] + objs['common'])
        for d in DIRS:
            links.append(['ar', 'rcs', os.path.join(tmp, 'lib%s.a' % d)] + objs[d])
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count()) as ex:
            list(ex.map(_run, links))
        open(os.path.join(tmp, '.done'), 'w').close()
        try:
            os.rename(tmp, out)
        except OSError:          # another check built it meanwhile
            shutil.rmtree(tmp, ignore_errors=True)
            if not os.path.exists(os.path.join(out, '.done')):
                raise
    for h in harnesses:
        src = os.path.join(VERIF, 'harness', h + '.c')
        with open(src, 'rb') as fp:
            hk = hashlib.sha256(fp.read()).hexdigest()[:12]
        exe = os.path.join(out, '%s-%s' % (h, hk))
        if not os.path.exists(exe):
            libs, extra = [], []
            with open(src) as fp:
                for line in fp:
                    if line.startswith('// LIBS:'):
                        libs = line.split(':', 1)[1].split()
                    elif line.startswith('// LINK:'):
                        extra = line.split(':', 1)[1].split()
            t = '%s.%d' % (exe, os.getpid())
            _run([cc, '-std=gnu11', '-D_GNU_SOURCE', '-DHAVE_CONFIG_H', '-w', '-I' + out,
                  '-I' + os.path.join(REPO, 'src')] + flags + extra + [src, '-o', t]
                 + [os.path.join(out, 'lib%s.a' % l) for l in libs] + ['-lm', '-lpthread'])
            os.rename(t, exe)
        link_ = os.path.join(out, h)
        if not os.path.islink(link_) or os.readlink(link_) != os.path.basename(exe):
            t = '%s.%d.ln' % (link_, os.getpid())
            os.symlink(os.path.basename(exe), t)
            os.rename(t, link_)
    return out


def preload(name, out):
    """Builds harness/<name>.c as a shared object for LD_PRELOAD (no sanitizer)."""
    src = os.path.join(VERIF, 'harness', name + '.c')
    with open(src, 'rb') as fp:
        hk = hashlib.sha256(fp.read()).hexdigest()[:12]
    so = os.path.join(out, '%s-%s.so' % (name, hk))
    if not os.path.exists(so):
        t = '%s.%d' % (so, os.getpid())
        _run(['gcc', '-O1', '-g', '-fPIC', '-shared', '-D_GNU_SOURCE', '-w', src, '-o', t, '-ldl', '-lpthread'])
        os.rename(t, so)
    return so


if __name__ == '__main__':
    for v in sys.argv[1:] or ['asan', 'tsan', 'plain', 'msan']:
        try:
            print(build(v))
        except BuildError as e:
            print(e, file=sys.stderr)
            sys.exit(2)
