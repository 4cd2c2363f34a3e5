"""C40: a hotfix is applied once, only when needed, and only if it exists."""
from verif import sym_str, choose, expect, expect_eq, cover
import twisted
from twisted.internet import base, defer, task
from twisted.protocols import policies
from twisted.python import filepath
from twisted.test import proto_helpers
from twisted.trial import unittest
import twisted.plugin
from epsilon import hotfix, hotfixes
from epsilon.hotfixes import internet_task_clock

COVER = ('needed', 'not needed', 'unknown', 'twice', 'failed', 'another')
NAMES = ('filepath_copyTo', 'timeoutmixin_calllater', 'delayedcall_seconds', 'deferredgenerator_tfailure',
         'proto_helpers_stringtransport', 'internet_task_Clock', 'trial_assertwarns', 'plugin_package_paths',
         'loopbackasync_reentrancy')
installs = []
failing = []


class Broken(Exception):
    pass


class Fake(object):
    def __init__(self, name):
        self.name = name

    def install(self):
        installs.append(self.name)
        if failing:
            raise Broken()


for _n in NAMES:
    _f = Fake(_n)
    if _n == 'internet_task_Clock':
        internet_task_clock.install = _f.install
    else:
        setattr(hotfixes, _n, _f)


class Version(object):
    def __init__(self, major, minor):
        self.package, self.major, self.minor, self.micro = 'twisted', major, minor, 0


class Old(object):
    """a class of an old library, without the newer methods"""


def noteq(self, o):
    return True


def eq(self, o):
    return self is o


def old_init(self, time, func, args, kw, cancel, reset):
    pass


def old_call_later(self, when, f, *a, **k):
    calls = self.__dict__.setdefault('oldcalls', [])
    calls.append(when)
    return calls


class WaitForDeferred(object):
    """the old generators: what is waited for is there at once"""
    bad = False

    def __init__(self, d):
        self.d = d

    def getResult(self):
        r = []
        self.d.addCallback(r.append)
        return r[0] if self.bad else None


def deferredGenerator(f):
    def run():
        for x in f():
            pass
    return run


def write_anything(self, data):
    self.written = data


def library(name, broken):
    """the library with or without the defect"""
    if name == 'filepath_copyTo':
        if broken:
            filepath.FilePath.__eq__, filepath.FilePath.__ne__ = eq, noteq
    elif name == 'timeoutmixin_calllater':
        if broken:
            policies.TimeoutMixin = Old
    elif name == 'delayedcall_seconds':
        if broken:
            base.DelayedCall.__init__ = old_init
    elif name == 'deferredgenerator_tfailure':
        if broken or choose(2, 'generators'):
            defer.waitForDeferred, defer.deferredGenerator = WaitForDeferred, deferredGenerator
            WaitForDeferred.bad = broken
    elif name == 'proto_helpers_stringtransport':
        if broken:
            proto_helpers.StringTransport.write = write_anything
    elif name == 'internet_task_Clock':
        if broken:
            task.Clock.callLater = old_call_later
    elif name == 'trial_assertwarns':
        if broken:
            unittest.TestCase = Old
    elif name == 'plugin_package_paths':
        if broken:
            del twisted.plugin.pluginPackagePaths
            twisted.plugin.__origin__ = 'spec'       # complete: what is missing does not exist
    else:
        v = choose(((2, 5), (8, 0), (8, 1)) if broken else ((8, 2), (8, 10), (9, 0), (10, 1), (26, 10)), 'version')
        twisted.version = Version(*v)


def check_needed():
    name = choose(NAMES, 'hotfix')
    broken = choose(2, 'defect present') == 1
    library(name, broken)
    r = hotfix.require('twisted', name)
    expect_eq(installs, [name] if broken else [], 'installed exactly if the defect is there')
    cover('needed' if broken else 'not needed')
    for i in range(2):
        hotfix.require('twisted', name)
        expect_eq(installs, [name] if broken else [], 'at most once')
        cover('twice')


def check_sequences():
    """two hotfixes in any order, each as often as wanted"""
    a, b = choose(NAMES, 'first'), choose(NAMES, 'second')
    if a == b:
        return
    library(a, True)
    library(b, True)
    for name in choose(((a, b), (a, b, a), (a, a, b), (b, a, b, a)), 'order'):
        hotfix.require('twisted', name)
    expect_eq(sorted(installs), sorted([a, b]), 'each of them once')
    cover('another')


def check_failed():
    """an installation that failed is not remembered"""
    name = choose(NAMES, 'hotfix')
    library(name, True)
    failing.append(1)
    for i in range(2):
        try:
            hotfix.require('twisted', name)
        except Broken:
            cover('failed')
        else:
            expect(False, 'the failure is passed on')
        expect_eq(installs, [name] * (i + 1), 'tried each time')
    del failing[:]
    hotfix.require('twisted', name)
    expect_eq(installs, [name] * 3, 'installed at last')
    hotfix.require('twisted', name)
    expect_eq(installs, [name] * 3, 'and then remembered')


def check_unknown():
    package = choose(('twisted', 'epsilon', 'Twisted', '', 'other'), 'package')
    if package == 'other':
        package = sym_str('package')
    name = sym_str('name')
    for i in range(2):
        try:
            hotfix.require(package, name)
        except hotfix.NoSuchHotfix:
            expect_eq(installs, [], 'nothing installed')
            expect(package != 'twisted' or name not in NAMES, 'a known one is not refused')
            cover('unknown')
        else:
            expect(package == 'twisted' and name in NAMES, 'one which is not known is refused')


def check_wrong_package():
    """the names belong to their package"""
    name = choose(NAMES, 'hotfix')
    library(name, True)
    first = choose(2, 'after the real one')
    if first:
        hotfix.require('twisted', name)
    try:
        hotfix.require(choose(('epsilon', 'twisted.python', ''), 'package'), name)
    except hotfix.NoSuchHotfix:
        expect_eq(installs, [name] * first, 'nothing installed')
    else:
        expect(False, 'refused')
