"""C54: automatic setup distributes every package and file once."""
import os
import sys
from distutils import core
from twisted import plugin
from twisted.python import reflect
from verif import choose, expect, expect_eq, cover
from epsilon import setuphelper

COVER = ('package', 'nested', 'data', 'hidden', 'plugins', 'cache', 'no package', 'conflict', 'installed', 'not installed', 'several', 'broken plugins')


def tree(spec):
    for p in list(os.fs):
        if p not in ('/', '/work'):
            del os.fs[p]
    for f in spec:
        parts = f.split('/')
        d = '/work'
        for x in parts[:-1]:
            d = d + '/' + x
            os.fs[d] = ('dir',)
        if parts[-1]:
            os.fs[d + '/' + parts[-1]] = ('file', b'')


PACKAGES = ('alpha/__init__.py', 'alpha/mod.py')
EXTRA = {
    'nested': ('alpha/sub/__init__.py', 'alpha/sub/more.py', 'alpha/sub/deep/__init__.py'),
    'data': ('alpha/data.txt', 'alpha/static/logo.png', 'alpha/static/css/main.css'),
    'script': ('alpha/scripts/run.py', 'alpha/scripts/run.pyc'),
    'hidden': ('alpha/.svn/entries', '.git/config', '.git/hooks/__init__.py', 'alpha/sub2/__init__.py', 'alpha/sub2/.x/y.txt'),
    'plugins': ('twisted/plugins/beta.py', 'twisted/plugins/dropin.cache'),
    'other': ('doc/index.txt', 'setup.py', 'README'),
    'root': ('__init__.py', 'plugins/q.txt'),
    'second': ('gamma/__init__.py', 'gamma/g.dat', 'gamma/mod.pyo'),
    'cache': ('alpha/plugins/__init__.py', 'alpha/plugins/dropin.cache'),
    'same name': ('alpha/alpha/x.txt', 'alpha/alpha/alpha/__init__.py', 'alpha/alpha/alpha/alpha.txt', 'alpha/myalpha/alpha', 'alphabet/__init__.py',
                  'alphabet/alpha.txt', 'alphabet/alpha/y.txt'),
    'odd name': ('alpha/dropin.cache.old', 'alpha/mydropin.cache', 'alpha/__init__.pyx', 'alpha/__init__.py.bak', 'alpha/x.PY', 'alpha/py', 'alpha/a.b/c.d.txt',
                 'alpha/plugins.txt', 'alpha/dropin.cache.d/z.txt', 'plugins/q.txt', 'myplugins/q.txt', 'alpha/so.pyd'),
    'usual name': tuple(['alpha/%s/%s' % (d, f) for d in ('test', 'tests', 'build', 'docs', 'examples', 'core', 'RCS') for f in ('__init__.py', 'x.html')]),
    'usual top': tuple(['%s/%s' % (d, f) for d in ('test', 'build', 'dist', 'bin', 'src', '_private') for f in ('__init__.py', 'x.html')]),
    'below': ('lib/omega/__init__.py', 'lib/omega/o.txt', 'lib/omega/sub/__init__.py', 'lib/notes.txt'),
    'empty name': ('alpha/.hidden', 'alpha/noext'),
}


def expected(files):
    """packages, and data files of each top-level package"""
    dirs = {}
    for f in files:
        parts = f.split('/')
        if any([x.startswith('.') for x in parts[:-1]]):
            continue
        for i in range(1, len(parts)):
            dirs.setdefault('/'.join(parts[:i]), set())
        if len(parts) > 1:
            dirs['/'.join(parts[:-1])].add(parts[-1])
    packs = []
    plugins = []
    for d in dirs:
        if '__init__.py' in dirs[d]:
            packs.append(d)
        elif d + '/plugins' in dirs:
            packs.append(d)
            plugins.append(d)
    data = {}
    for p in packs:
        if '/' in p:
            continue
        data[p] = []
        for d in dirs:
            if d != p and not d.startswith(p + '/'):
                continue
            for f in dirs[d]:
                if f == 'dropin.cache':
                    cover('cache')
                    continue
                ext = '.' + f.rsplit('.', 1)[1] if '.' in f[1:] else ''
                if ext in ('.py', '.pyc', '.pyo') and '__init__.py' in dirs[d]:
                    continue
                data[p].append((d + '/' + f)[len(p) + 1:])
    return sorted([p.replace('/', '.') for p in packs]), data, plugins


def check_found():
    files = list(PACKAGES) if choose(2, 'a package') else []
    a, b = choose((('nested', 'data'), ('script', 'hidden'), ('plugins', 'other'), ('second', 'data'), ('cache', 'nested'), ('empty name', 'other'),
                   ('other', 'root'), ('plugins', 'root'), ('same name', 'data'), ('odd name', 'nested'), ('same name', 'odd name'), ('plugins', 'odd name'), ('plugins', 'second'), ('hidden', 'nested'), ('usual name', 'usual top'), ('below', 'data'), ('usual top', 'below')), 'extra')
    for e in (a, b):
        for f in EXTRA[e]:
            if f not in files and (files[:1] == ['alpha/__init__.py'] or not f.startswith('alpha/')):
                files.append(f)
    tree(files)
    packs, data, plugins = expected(files)
    kw = {'name': 'x', 'version': '1'}
    d = setuphelper.autosetup(**kw)
    expect(len(core.calls) == 1, 'setup runs once')
    got = core.calls[0]
    expect_eq(sorted(got), ['name', 'package_data', 'packages', 'version'], 'with what was given and what was found')
    expect(got['name'] == 'x' and got['version'] == '1', 'with what was given')
    expect_eq(sorted(got['packages']), packs, 'every package once')
    expect_eq(sorted(got['package_data']), sorted(data), 'data of every top-level package')
    for p in data:
        expect_eq(sorted(got['package_data'][p]), sorted(data[p]), 'every other file of the package once, by its relative path')
        if data[p]:
            cover('data')
    expect(isinstance(d, core.Distribution), 'the distribution is returned')
    if any(['.' in p for p in packs]):
        cover('nested')
    if packs:
        cover('package')
    else:
        cover('no package')
    if plugins:
        cover('plugins')
    if 'hidden' in (a, b):
        cover('hidden')
    if len(data) > 1:
        cover('several')


def check_conflict():
    """packages cannot be given by hand as well"""
    tree(PACKAGES)
    k = choose(('packages', 'package_data'), 'given')
    try:
        setuphelper.autosetup(**{k: choose(([], ['alpha']), 'value')})
    except AssertionError:
        cover('conflict')
    else:
        expect(False, 'packages given by hand are refused')
    expect_eq(core.calls, [], 'nothing is set up')


class Install(object):
    install_lib = 'build/lib'


class Module(object):
    def __init__(self, name):
        self.__name__ = name


def check_plugin_cache():
    """the plugin caches are regenerated, from the place of installation, if there was one"""
    two = choose(2, 'two')
    tree(('twisted/plugins/beta.py', 'alpha/__init__.py') + (('nevow/plugins/x.py',) if two else ()))
    core.commands[:] = choose(([], ['build'], ['sdist', 'develop', 'install_lib'], ['install'], ['build', 'install', 'bdist']), 'commands')
    core.command_obj['install'] = Install()
    sys.path[:] = ['/a', '/b']
    asked, found = [], []
    error = choose((None, ImportError('no'), ValueError('Empty module name'), ValueError('odd'), SyntaxError('x')), 'error')

    def namedAny(name):
        found.append(name)
        if error is not None and name == 'twisted.plugins':
            raise error
        return Module(name)
    reflect.namedAny = namedAny

    def getPlugins(interface, package=None):
        for p in ('one', 'two'):
            asked.append((interface, package.__name__, list(sys.path), p))
            yield p
    plugin.getPlugins = getPlugins
    setuphelper.autosetup(name='x')
    names = ['nevow.plugins', 'twisted.plugins'] if two else ['twisted.plugins']
    if 'install' in core.commands:
        expect_eq(sys.path, ['/work/build/lib', '/a', '/b'], 'the place of installation comes first')
        expect_eq(sorted(found), names, 'every plugin package is looked up once')
        good = [n for n in names if error is None or n != 'twisted.plugins']
        expect_eq(sorted(set([a[1] for a in asked])), good, 'the plugins of each that can be loaded')
        expect_eq(len(asked), 2 * len(good), 'all of them, once')
        for a in asked:
            expect(a[0] is plugin.IPlugin and a[2] == sys.path, 'every plugin, from the place of installation')
        if error is not None:
            cover('broken plugins')
        cover('installed')
    else:
        expect_eq(sys.path, ['/a', '/b'], 'the import path stays')
        expect(asked == [] and found == [], 'no cache is touched')
        cover('not installed')
