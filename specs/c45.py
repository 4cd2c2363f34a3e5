"""C45: spawned Python processes get the requested import path."""
import importlib.util
import os
import sys
from verif import sym_str, sym_int, choose, expect, expect_eq, cover
from twisted.internet import reactor, stdio
from twisted.application.service import IService
from epsilon import process

COVER = ('python', 'any program', 'defaults', 'packages', 'system library', 'existing path', 'missing package', 'stdio', 'twice')
LIB = sys.prefix + '/lib/python3.12'
DIRS = {'alpha': '/src/a', 'beta': '/src/b', 'gamma': '/src/a', 'delta': '/home/me', 'syspkg': None, 'site': None, 'near': sys.prefix + '/src', 'top': sys.prefix}
importlib.util.installed.update({'alpha': '/src/a/alpha', 'beta': '/src/b/beta', 'gamma': '/src/a/gamma.py', 'delta': '/home/me/delta',
                                 'syspkg': LIB + '/syspkg', 'site': LIB + '/site-packages/site.py',
                                 'near': sys.prefix + '/src/near', 'top': sys.prefix + '/top.py'})


class Proto(object):
    pass


def wanted(env, packages):
    """the entries the path begins with, in any order, and the entries it ends with"""
    ahead = []
    for p in packages:
        d = DIRS[p]
        if d is None:
            cover('system library')
        elif d not in ahead:
            ahead.append(d)
    return ahead, env.get('PYTHONPATH')


def examine(env, given, packages):
    ahead, old = wanted(given, packages)
    for k in given:
        if k != 'PYTHONPATH':
            expect(k in env, 'nothing is lost from the environment')
            expect_eq(env[k], given[k], 'environment')
    expect([k for k in env if k not in given and k != 'PYTHONPATH'] == [], 'nothing is added')
    path = env.get('PYTHONPATH', '').split(':')
    front = [x for x in path[:len(ahead)]]
    expect_eq(sorted(front), sorted(ahead), 'the directories of the packages come first')
    rest = path[len(ahead):]
    if old is None:
        expect([x for x in rest if x] == [], 'and nothing else')
    else:
        expect_eq(rest, old.split(':'), 'ahead of the path that was there')
        cover('existing path')


def check_spawn():
    given = {}
    if choose(2, 'variable'):
        given['HOME'] = sym_str('home')
    old = choose(('none', 'one', 'two'), 'PYTHONPATH')
    if old == 'one':
        given['PYTHONPATH'] = sym_str('old', excl=(':',))
    elif old == 'two':
        given['PYTHONPATH'] = sym_str('old', excl=(':',)) + ':' + sym_str('older', excl=(':',))
    before = dict(given)
    packages = choose(((), ('alpha',), ('alpha', 'beta'), ('beta', 'alpha', 'gamma'), ('syspkg',), ('site', 'delta'), ('alpha', 'alpha'),
                       ('gamma', 'syspkg', 'beta', 'delta'), ('near', 'alpha'), ('top', 'site')), 'packages')
    if choose(2, 'an iterator'):
        pk = iter(packages)
    else:
        pk = list(packages)
    proto, args, cwd = Proto(), [sym_str('arg'), '-x'], sym_str('directory')
    uid, gid, pty = sym_int('uid'), sym_int('gid'), choose((0, 1), 'pty')
    if choose(2, 'python'):
        exe = sys.executable
        r = process.spawnPythonProcess(proto, args, given, cwd, uid, gid, pty, pk)
        cover('python')
    else:
        exe = sym_str('executable')
        r = process.spawnProcess(proto, exe, args, given, path=cwd, uid=uid, gid=gid, usePTY=pty, packages=pk)
        cover('any program')
    expect(len(reactor.spawned) == 1, 'spawned once')
    expect(r is reactor.spawned[0], 'the process transport is returned')
    gproto, gexe, gargs, env, gcwd, guid, ggid, gpty, fds = reactor.spawned[0]
    expect(gproto is proto, 'protocol')
    expect_eq(gexe, exe, 'executable')
    expect_eq(list(gargs), args, 'arguments')
    expect_eq(gcwd, cwd, 'working directory')
    expect_eq(guid, uid, 'user')
    expect_eq(ggid, gid, 'group')
    expect(gpty == pty, 'terminal')
    examine(env, before, packages)
    expect(given == before, 'the mapping of the caller is not modified')
    if packages:
        cover('packages')


def check_defaults():
    """two processes with nothing specified do not influence each other"""
    proto = Proto()
    f = choose((process.spawnPythonProcess, process.spawnProcess), 'function')
    a = () if f is process.spawnPythonProcess else ('/bin/prog',)
    f(proto, *a, packages=['alpha'])
    f(proto, *a, packages=['beta'])
    f(proto, *a)
    for call, pk in zip(reactor.spawned, (('alpha',), ('beta',), ())):
        expect(list(call[2]) == [] and call[4:8] == (None, None, None, 0), 'nothing specified')
        examine(call[3], {}, pk)
    cover('defaults')
    cover('twice')


def check_missing():
    try:
        process.spawnPythonProcess(Proto(), packages=choose((['nowhere'], ['alpha', 'nowhere']), 'packages'))
    except ImportError:
        expect(reactor.spawned == [], 'nothing is launched')
        cover('missing package')
    else:
        expect(False, 'a package that cannot be found is an error')


def check_stdio():
    p = Proto()
    s = process.StandardIOService(p)
    expect(stdio.connected == [], 'not before it is started')
    s.startService()
    expect(len(stdio.connected) == 1 and stdio.connected[0] is p, 'connected once to the standard streams')
    expect(s.protocol is p, 'its protocol')
    cover('stdio')
