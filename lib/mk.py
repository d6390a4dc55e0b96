"""Running blogc-make on generated sites."""
import os
import vlib


def env_for(ctx, asan_blogc=False, **kw):
    return vlib.base_env(BLOGC=(ctx.asan if asan_blogc else ctx.plain)('blogc'), **kw)


OUTDIRS = [None, None, None, '', 'public', 'public/', 'oa/b', './out', 'o ut', 'out//', 'oq/../z', 'ABS', 'ABS/', 'ABS/x/y', '../beside', 'ünï']


def outdir(spec, top, site_dir):
    """(value of OUTPUT_DIR or None, the directory it means)"""
    if spec is None or spec == '':
        return spec, os.path.join(site_dir, '_build')
    v = spec.replace('ABS', top + '/abs out')
    return v, os.path.normpath(os.path.join(site_dir, v))


def make(ctx, site_dir, rules=(), env=None, site=None, cwd=None, exe='blogc-make', timeout=60, args=(), variant='asan', prefix=()):
    cmd = list(prefix) + [getattr(ctx, variant)(exe)] + list(args)
    if site and site.get('dev'):
        cmd.append('-D')
    name = site['blogcfile'] if site else 'blogcfile'
    if cwd is not None and cwd != site_dir:
        cmd += ['-f', os.path.join(site_dir, name)]
    elif name != 'blogcfile':
        cmd += ['-f', name]
    return vlib.run(cmd + list(rules), env=env or env_for(ctx), cwd=cwd or site_dir, timeout=timeout)


def said(r):
    return 'exit %s\n%s\n%s' % (r.rc, r.out.decode('utf-8', 'replace')[-700:], r.err.decode('utf-8', 'replace')[-1200:])
