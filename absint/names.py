"""Binding analysis: every name, module attribute, class attribute and self attribute a module refers to is bound somewhere.

Works on the syntax trees and the byte code of the library modules. What exists outside the library is read from the sources of the
installed packages (parsed, not imported) and, for the standard library, from the interpreter running the analysis (same version).
"""
import ast
import builtins
import dis
import glob
import importlib
import os
import re
import sys

SITE = None
PY2_METHODS = frozenset('iteritems itervalues iterkeys viewitems viewvalues viewkeys has_key im_func im_self im_class func_name func_code '
                        'func_defaults func_globals func_closure func_dict func_doc'.split())
PY2_BUILTINS = frozenset('unicode cmp file basestring long xrange raw_input reduce unichr execfile buffer apply'.split())
# what binds a name, in text
BINDS = r'\b(?:def|class)\s+(\w+)|\.(\w+)\s*(?:: [^=\n]*)?=[^=]|^\s+(\w+)\s*[:=]'
# interfaces of other projects (Vertex transports, Axiom stores), whose objects the caller hands in
EXTERNAL = frozenset('getQ2QHost getQ2QPeer transact'.split())
SPECIAL = frozenset('__name__ __file__ __doc__ __package__ __loader__ __spec__ __builtins__ __path__ __dict__ __annotations__ '
                    '__class__ __module__ __qualname__'.split())


def site_dir():
    global SITE
    if SITE is None:
        c = sorted(glob.glob('/opt/venv/lib/python3*/site-packages'))
        SITE = c[0] if c else ''
    return SITE


def top_level(tree):
    """statements of a scope, looking into if/try/with/for but not into functions and classes"""
    todo = list(tree.body)
    while todo:
        s = todo.pop(0)
        yield s
        for f in ('body', 'orelse', 'finalbody', 'handlers'):
            if isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While, ast.ExceptHandler)) or f == 'handlers':
                if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    continue
                todo.extend(getattr(s, f, []) or [])


def target_names(t):
    for n in ast.walk(t):
        if isinstance(n, ast.Name):
            yield n.id


class Mod(object):
    """what a module binds, from its source"""

    def __init__(self, name, path, world):
        self.name, self.path, self.world = name, path, world
        self.pkg = os.path.basename(path) == '__init__.py'
        with open(path, encoding='utf-8', errors='replace') as f:
            self.text = f.read()
        self.tree = ast.parse(self.text)
        self.names = {}          # name -> ('module', dotted) | ('class', node) | ('import', module, name) | ('other',)
        self.open = False        # binds names we cannot see
        for s in top_level(self.tree):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.put(s.name, ('other',))
                if s.name == '__getattr__':
                    self.open = True
            elif isinstance(s, ast.ClassDef):
                self.put(s.name, ('class', s))
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.put(a.asname, ('module', a.name))
                    else:
                        self.put(a.name.split('.')[0], ('module', a.name.split('.')[0]))
            elif isinstance(s, ast.ImportFrom):
                m = self.absolute(s)
                for a in s.names:
                    if a.name == '*':
                        self.names.setdefault('*', []).append(m)
                    else:
                        self.put(a.asname or a.name, ('import', m, a.name))
            elif isinstance(s, ast.ExceptHandler):
                if s.name:
                    self.put(s.name, ('other',))
            else:
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.put(n.id, ('other',))
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Global):
                for x in n.names:
                    self.put(x, ('other',))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('exec', 'globals'):
                self.open = True

    def put(self, n, v):
        if n in self.names and self.names[n] != v:
            v = ('other',)
        self.names[n] = v

    def absolute(self, s):
        if not s.level:
            return s.module
        base = self.name.split('.')
        if not self.pkg:
            base = base[:-1]
        if s.level > 1:
            base = base[:len(base) - (s.level - 1)]
        return '.'.join(base + ([s.module] if s.module else []))

    def has(self, n, seen=()):
        if n in self.names or n in SPECIAL or self.open:
            return True
        for m in self.names.get('*', ()):
            if m in seen:
                continue
            r = self.world.exists(m, n, seen + (self.name,))
            if r is not False:
                return True
        return False


class World(object):
    def __init__(self, repo):
        self.repo = repo
        self.mods = {}
        self.std = {}

    def path(self, name):
        for base in (self.repo, site_dir()):
            if not base:
                continue
            p = os.path.join(base, *name.split('.'))
            if os.path.isfile(os.path.join(p, '__init__.py')):
                return os.path.join(p, '__init__.py')
            if os.path.isfile(p + '.py'):
                return p + '.py'
        return None

    def is_dir(self, name):
        return any(os.path.isdir(os.path.join(b, *name.split('.'))) for b in (self.repo, site_dir()) if b)

    def mod(self, name):
        """Mod, or None if it is not a source module of the library or the installed packages"""
        if name not in self.mods:
            p = None if name.split('.')[0] in sys.stdlib_module_names else self.path(name)
            try:
                self.mods[name] = Mod(name, p, self) if p else None
            except (SyntaxError, OSError):
                self.mods[name] = None
        return self.mods[name]

    def stdlib(self, name):
        if name not in self.std:
            try:
                self.std[name] = importlib.import_module(name)
            except Exception:
                self.std[name] = None
        return self.std[name]

    def module_exists(self, name):
        top = name.split('.')[0]
        if top in sys.stdlib_module_names:
            return self.stdlib(name) is not None
        if top == 'six':
            return True
        if top == 'distutils' and os.path.isdir(os.path.join(site_dir(), '_distutils_hack')):
            return True
        if self.path(name):
            return True
        if self.is_dir(name):
            return True
        d = os.path.join(site_dir(), *name.split('.')) if site_dir() else ''
        return bool(glob.glob(d + '.*.so') or glob.glob(d + '.so'))

    def exists(self, mod, name, seen=()):
        """True, False, or None if that cannot be told"""
        top = mod.split('.')[0]
        if top == '__future__':
            return True
        if top == 'distutils' or not self.module_exists(mod):
            return None            # reported where it is imported, unless that is guarded
        if top in sys.stdlib_module_names:
            m = self.stdlib(mod)
            if m is None:
                return False
            return hasattr(m, name) or self.stdlib(mod + '.' + name) is not None
        if top == 'six' and mod != 'six':
            return None
        if mod == 'twisted.internet.reactor':
            return self.reactor(name)
        m = self.mod(mod)
        if m is None:
            return None if self.module_exists(mod) else False
        if top == 'six':
            # six binds part of its names through exec and its lazy-module helpers: any mention counts
            return True if re.search(r'\b%s\b' % re.escape(name), m.text) else False
        if m.has(name, seen):
            return True
        if m.pkg and self.module_exists(mod + '.' + name):
            return True
        # names a module binds through setattr, deprecation helpers and the like are mentioned as strings
        if top != 'epsilon' and re.search(r'[\'"]%s[\'"]' % re.escape(name), m.text):
            return None
        return False

    def reactor(self, name):
        for f in ('base', 'posixbase', 'interfaces', '_signals', 'epollreactor'):
            m = self.mod('twisted.internet.' + f)
            if m is not None and re.search(r'\b(def|class)?\s*%s\b' % re.escape(name), m.text):
                return True
        return name in SPECIAL

    # classes

    def find_class(self, mod, name, depth=0):
        """(Mod, ClassDef) of a class named in a module, following imports; None if unknown"""
        m = self.mod(mod)
        if m is None or depth > 8:
            return None
        v = m.names.get(name)
        if v is None:
            for s in m.names.get('*', ()):
                r = self.find_class(s, name, depth + 1)
                if r:
                    return r
            return None
        if v[0] == 'class':
            return m, v[1]
        if v[0] == 'import':
            return self.find_class(v[1], v[2], depth + 1)
        return None

    def resolve_base(self, m, expr):
        """(Mod, ClassDef) | a builtin/stdlib class | None"""
        if isinstance(expr, ast.Name):
            v = m.names.get(expr.id)
            if v is None:
                b = getattr(builtins, expr.id, None)
                return b if isinstance(b, type) else None
            if v[0] == 'class':
                return m, v[1]
            if v[0] == 'import':
                return self.lookup(v[1], v[2])
            return None
        if isinstance(expr, ast.Attribute):
            mod = self.module_of(m, expr.value)
            if mod:
                return self.lookup(mod, expr.attr)
        return None

    def lookup(self, mod, name):
        if mod.split('.')[0] in sys.stdlib_module_names:
            c = getattr(self.stdlib(mod), name, None)
            return c if isinstance(c, type) else None
        return self.find_class(mod, name)

    def module_of(self, m, expr):
        """dotted name of the module an expression denotes, at module level"""
        if isinstance(expr, ast.Name):
            v = m.names.get(expr.id)
            if v is None:
                return None
            if v[0] == 'module':
                return v[1]
            if v[0] == 'import' and self.is_module(v[1] + '.' + v[2]) and not (self.mod(v[1]) and v[2] in self.mod(v[1]).names):
                return v[1] + '.' + v[2]
            return None
        if isinstance(expr, ast.Attribute):
            b = self.module_of(m, expr.value)
            if b and self.is_module(b + '.' + expr.attr):
                mm = self.mod(b)
                if mm is not None and expr.attr in mm.names and mm.names[expr.attr][0] != 'module':
                    return None
                return b + '.' + expr.attr
        return None

    def is_module(self, name):
        top = name.split('.')[0]
        if top in sys.stdlib_module_names:
            return name == top or isinstance(sys.modules.get(name) or self.stdlib(name), type(sys))
        return self.path(name) is not None

    def class_names(self, m, node, seen=None):
        """(names bound by a class and its bases, whether that is all)"""
        seen = set() if seen is None else seen
        if id(node) in seen:
            return set(), True
        seen.add(id(node))
        names, whole = set(dir(object)) | set(dir(type)) | {'__slots__', '__annotations__'}, True
        for kw in node.keywords:
            whole = False
        if node.decorator_list:
            whole = whole and all(self.harmless(d) for d in node.decorator_list)
        for s in top_level(node):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.add(s.name)
                if s.name in ('__getattr__', '__getattribute__'):
                    whole = False
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    names.add((a.asname or a.name).split('.')[0])
            else:
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        names.add(n.id)
                    elif isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 400:
                        names.update(re.findall(r'\w+', n.value))
        for n in ast.walk(node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.attr)
        for b in node.bases:
            r = self.resolve_base(m, b)
            if r is None:
                whole = False
                for n in ast.walk(b):
                    if isinstance(n, ast.Constant) and isinstance(n.value, str):
                        names.update(n.value.split())
                    elif isinstance(n, ast.keyword) and n.arg:
                        names.add(n.arg)
            elif isinstance(r, type):
                names.update(dir(r))
            else:
                ns, w = self.class_names(r[0], r[1], seen)
                names |= ns
                whole = whole and w
        return names, whole

    def harmless(self, d):
        if isinstance(d, ast.Call):
            d = d.func
        n = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else ''
        return n in ('implementer', 'implementer_only', 'provider', 'total_ordering', 'add_metaclass')


# -- names never bound on any path


def reaching(co):
    """local names loaded where no definition, on any path, reaches: [(name, line)]"""
    if not co.co_varnames:
        return []
    ins = list(dis.get_instructions(co))
    idx = {i.offset: k for k, i in enumerate(ins)}
    n = co.co_argcount + co.co_kwonlyargcount + bool(co.co_flags & 4) + bool(co.co_flags & 8)
    start = frozenset(co.co_varnames[:n])
    handlers = []
    for e in dis._parse_exception_table(co):
        handlers.append((e.start, e.end, e.target))
    state = {0: set(start)}
    todo = [0]
    ends = ('RETURN_VALUE', 'RETURN_CONST', 'RERAISE', 'RAISE_VARARGS')
    while todo:
        k = todo.pop()
        i = ins[k]
        cur = state[k]
        out = cur
        op = i.opname
        if op in ('STORE_FAST', 'STORE_FAST_MAYBE_NULL'):
            out = cur | {i.argval}
        elif op in ('DELETE_FAST', 'LOAD_FAST_AND_CLEAR'):
            out = cur - {i.argval}
        if op == 'LOAD_FAST_AND_CLEAR':
            out = cur               # inlined comprehension: restored afterwards
        succ = []
        if i.opcode in dis.hasjrel or i.opcode in dis.hasjabs:
            succ.append(idx[i.argval])
        if op not in ends and op not in ('JUMP_FORWARD', 'JUMP_BACKWARD', 'JUMP_BACKWARD_NO_INTERRUPT'):
            if k + 1 < len(ins):
                succ.append(k + 1)
        flows = [(s, out) for s in succ]
        for a, b, t in handlers:
            if a <= i.offset < b:
                flows.append((idx[t], cur | out))
        for s, v in flows:
            old = state.get(s)
            if old is None:
                state[s] = set(v)
                todo.append(s)
            elif not v <= old:
                old |= v
                todo.append(s)
    bad = []
    for k, i in enumerate(ins):
        if i.opname in ('LOAD_FAST', 'LOAD_FAST_CHECK', 'DELETE_FAST') and k in state and i.argval not in state[k]:
            if i.argval.startswith('.'):
                continue
            bad.append((i.argval, i.positions.lineno))
    return bad


def edits(a, b):
    """edit distance, transpositions counting once"""
    prev2, prev = None, list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        cur = [i]
        for j, y in enumerate(b, 1):
            v = min(prev[j] + 1, cur[j - 1] + 1, prev[j - 1] + (x != y))
            if prev2 is not None and j > 1 and x == b[j - 2] and a[i - 2] == y:
                v = min(v, prev2[j - 2] + 1)
            cur.append(v)
        prev2, prev = prev, cur
    return prev[-1]


def codes(co):
    yield co
    for c in co.co_consts:
        if isinstance(c, type(co)):
            yield from codes(c)


class Check(object):
    def __init__(self, repo, files=None):
        self.repo = repo
        self.world = World(repo)
        self.violations = []       # (file, line, function, rule, message)
        self.counts = {}
        self.functions = 0
        self.files = files if files is not None else sorted(
            f for f in glob.glob(os.path.join(repo, 'epsilon', '**', '*.py'), recursive=True)
            if '/test/' not in f and '/tests/' not in f)

    def bad(self, rel, line, fn, rule, msg):
        v = (rel, line, fn, rule, msg)
        if v not in self.violations:
            self.violations.append(v)

    def count(self, rule, n=1):
        self.counts[rule] = self.counts.get(rule, 0) + n

    def run(self):
        infos = []
        stored = set()
        for f in self.files:
            rel = os.path.relpath(f, self.repo)
            name = rel[:-3].replace(os.sep, '.')
            if name.endswith('.__init__'):
                name = name[:-9]
            try:
                m = self.world.mod(name)
                if m is None or os.path.abspath(m.path) != os.path.abspath(f):
                    m = self.world.mods[name] = Mod(name, f, self.world)
            except SyntaxError as e:
                self.bad(rel, e.lineno, '<module>', 'syntax', str(e))
                continue
            infos.append((rel, name, m))
            stored |= self.stored(m.tree)
        self.subclasses(infos)
        for rel, name, m in infos:
            self.module(rel, name, m, stored)
        return self.violations

    def stored(self, tree):
        """attribute names the library binds, in any way"""
        r = set()
        docs = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)):
                if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                    docs.add(id(n.body[0].value))
                    d = n.body[0].value.value
                    if isinstance(d, str):
                        r.update(re.findall(r'@[ic]var (\w+)', d))
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                r.add(n.name)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                r.add(n.attr)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                r.add(n.id)
            elif isinstance(n, ast.arg):
                r.add(n.arg)
            elif isinstance(n, ast.keyword) and n.arg:
                r.add(n.arg)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    r.add((a.asname or a.name).split('.')[0])
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in docs and len(n.value) < 400:
                r.update(n.value.split())
        return r

    def subclasses(self, infos):
        """names bound in subclasses and in classes of the library combined with a class"""
        self.sub = {}
        for rel, name, m in infos:
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    names, whole = self.world.class_names(m, n)
                    for b in self.ancestors(m, n):
                        s = self.sub.setdefault(id(b), [set(), True])
                        s[0] |= names
                        s[1] = s[1] and whole

    def ancestors(self, m, node, seen=None):
        seen = seen if seen is not None else set()
        for b in node.bases:
            r = self.world.resolve_base(m, b)
            if isinstance(r, tuple) and id(r[1]) not in seen:
                seen.add(id(r[1]))
                yield r[1]
                yield from self.ancestors(r[0], r[1], seen)

    # guards

    def guarded_imports(self, tree):
        ok = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Try):
                names = set()
                for h in n.handlers:
                    t = h.type
                    if t is None:
                        names.add('ImportError')
                    else:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name):
                                names.add(x.id)
                if names & {'ImportError', 'ModuleNotFoundError', 'Exception', 'BaseException'}:
                    for part in (n.body, n.handlers):
                        for s in part:
                            for x in ast.walk(s):
                                if isinstance(x, (ast.Import, ast.ImportFrom)):
                                    ok.add(id(x))
        return ok

    def dead_on_3(self, tree):
        """nodes under a test of the Python version"""
        ok = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.If, ast.IfExp)):
                src = ast.unparse(n.test)
                asked = [ast.unparse(c.args[0]) for c in ast.walk(n.test) if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and
                         c.func.id in ('hasattr', 'getattr') and c.args]
                if asked:
                    for p in (n.body, n.orelse):
                        for s in (p if isinstance(p, list) else [p]):
                            for x in ast.walk(s):
                                if isinstance(x, ast.Attribute) and ast.unparse(x.value) in asked:
                                    ok.add(id(x))
                if 'PY2' in src or 'PY3' in src or 'version_info' in src or 'hexversion' in src:
                    for p in (n.body, n.orelse):
                        for s in (p if isinstance(p, list) else [p]):
                            for x in ast.walk(s):
                                ok.add(id(x))
            elif isinstance(n, ast.Try):
                hs = [ast.unparse(h.type) if h.type is not None else '' for h in n.handlers]
                if any('NameError' in h or 'AttributeError' in h for h in hs):
                    for s in n.body:
                        for x in ast.walk(s):
                            ok.add(id(x))
        return ok

    # one module

    def module(self, rel, name, m, stored):
        w = self.world
        tree = m.tree
        old = '/hotfixes/' in rel        # repairs of libraries that only existed on Python 2
        guarded, dead = self.guarded_imports(tree), self.dead_on_3(tree)
        deadlines = set()
        for n in ast.walk(tree):
            if id(n) in dead and isinstance(n, (ast.stmt, ast.Name)):
                deadlines.update(range(n.lineno, (n.end_lineno or n.lineno) + 1))
        # names
        co = compile(m.text, rel, 'exec', dont_inherit=True)
        for c in codes(co):
            self.functions += 1
            qual = getattr(c, 'co_qualname', c.co_name)
            is_class = not c.co_flags & 1 and c is not co
            local = set()
            for i in dis.get_instructions(c):
                if i.opname in ('STORE_NAME',):
                    local.add(i.argval)
            for i in dis.get_instructions(c):
                if i.opname in ('LOAD_GLOBAL', 'LOAD_NAME', 'LOAD_FROM_DICT_OR_GLOBALS'):
                    x = i.argval
                    line = i.positions.lineno
                    self.count('names')
                    if x in local or hasattr(builtins, x) or x in SPECIAL:
                        continue
                    if m.has(x) or line in deadlines or (old and x in PY2_BUILTINS):
                        continue
                    self.bad(rel, line, qual, 'undefined name', 'the name %s is not bound in the module nor a builtin' % x)
            if c.co_flags & 1:
                for x, line in reaching(c):
                    if line not in deadlines:
                        self.bad(rel, line, qual, 'unbound local', 'no assignment of %s reaches this use on any path' % x)
                self.count('functions')
        if old:
            return
        # imports and attributes
        self.walk(rel, m, tree, '<module>', None, {}, guarded, dead, stored)

    def imports(self, rel, m, s, qual, guarded):
        if id(s) in guarded:
            return
        w = self.world
        if isinstance(s, ast.Import):
            for a in s.names:
                self.count('imports')
                if not w.module_exists(a.name):
                    self.bad(rel, s.lineno, qual, 'import', 'there is no module %s' % a.name)
        else:
            mod = m.absolute(s)
            self.count('imports')
            if mod == '__future__':
                return
            if not w.module_exists(mod):
                self.bad(rel, s.lineno, qual, 'import', 'there is no module %s' % mod)
                return
            for a in s.names:
                if a.name != '*' and w.exists(mod, a.name) is False:
                    self.bad(rel, s.lineno, qual, 'import', 'module %s has no %s' % (mod, a.name))

    def walk(self, rel, m, scope, qual, cls, shadow, guarded, dead, stored):
        """attributes in one scope; shadow: local bindings that hide module-level ones (value: module or None)"""
        inner = []
        body = list(ast.iter_child_nodes(scope))
        todo = body
        nodes = []
        while todo:
            n = todo.pop()
            nodes.append(n)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)) and n is not scope:
                inner.append(n)
                todo.extend(getattr(n, 'decorator_list', []))
                if isinstance(n, ast.ClassDef):
                    todo.extend(n.bases)
                continue
            todo.extend(ast.iter_child_nodes(n))
        local = dict(shadow)
        if not isinstance(scope, ast.Module):
            for n in nodes:
                if isinstance(n, ast.arg):
                    local[n.arg] = None
                elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    local[n.id] = None
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    local[n.name] = None
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    local[n.name] = None
            for n in nodes:
                if isinstance(n, ast.Import):
                    for a in n.names:
                        local[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
                elif isinstance(n, ast.ImportFrom):
                    mod = m.absolute(n)
                    for a in n.names:
                        q = '%s.%s' % (mod, a.name)
                        mm = self.world.mod(mod)
                        ismod = self.world.is_module(q) and not (mm is not None and a.name in mm.names)
                        local[a.asname or a.name] = q if ismod else None
        # locals with one type at every assignment
        self.ltypes = {}
        if not isinstance(scope, (ast.Module, ast.ClassDef)):
            stores, typed = {}, {}
            for n in nodes:
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    stores[n.id] = stores.get(n.id, 0) + 1
                elif isinstance(n, ast.arg):
                    stores[n.arg] = 99
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    for x in n.names:
                        stores[x] = 99
            for n in inner:
                for x in ast.walk(n):
                    if isinstance(x, (ast.Global, ast.Nonlocal)):
                        for y in x.names:
                            stores[y] = 99
            for n in nodes:
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    typed.setdefault(n.targets[0].id, []).append(self.typeof(m, n.value, local))
            for x, ts in typed.items():
                if len(ts) == stores.get(x) and None not in ts and len(set(ts)) == 1:
                    self.ltypes[x] = ts[0]
        selfname = None
        if cls is not None and isinstance(scope, ast.FunctionDef) and scope.args.args and not any(
                isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in scope.decorator_list):
            selfname = scope.args.args[0].arg
            if selfname != 'self':
                selfname = None
        for n in nodes:
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                self.imports(rel, m, n, qual, guarded)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                if id(n) in dead:
                    continue
                self.attribute(rel, m, n, qual, cls, local, selfname, stored)
        for n in inner:
            q = (qual + '.' if qual != '<module>' else '') + getattr(n, 'name', '<lambda>')
            if isinstance(n, ast.ClassDef):
                self.walk(rel, m, n, q, n, local if not isinstance(scope, ast.ClassDef) else shadow, guarded, dead, stored)
            else:
                up = shadow if isinstance(scope, ast.ClassDef) else local
                c = scope if isinstance(scope, ast.ClassDef) else None
                self.walk(rel, m, n, q, c, up, guarded, dead, stored)

    def denotes(self, m, expr, local):
        if isinstance(expr, ast.Name) and expr.id in local:
            return local[expr.id]
        if isinstance(expr, ast.Attribute):
            b = self.denotes(m, expr.value, local)
            if b and self.world.is_module(b + '.' + expr.attr):
                mm = self.world.mod(b)
                if mm is not None and expr.attr in mm.names and mm.names[expr.attr][0] not in ('module', 'import'):
                    return None
                return b + '.' + expr.attr
            return None
        return self.world.module_of(m, expr)

    def attribute(self, rel, m, n, qual, cls, local, selfname, stored):
        w = self.world
        self.count('attributes')
        if n.attr.startswith('__') and n.attr.endswith('__'):
            return
        attr = n.attr
        mod = self.denotes(m, n.value, local)
        if mod:
            self.count('module attributes')
            if w.exists(mod, attr) is False:
                self.bad(rel, n.lineno, qual, 'module attribute', 'module %s has no %s' % (mod, attr))
            return
        if attr.startswith('__') and cls is not None:
            attr = '_' + cls.name.lstrip('_') + attr
            if n.attr in stored or attr in stored:
                return
        # a class named directly
        r = None
        if isinstance(n.value, ast.Name) and n.value.id not in local:
            v = m.names.get(n.value.id)
            if v and v[0] in ('class', 'import'):
                r = w.resolve_base(m, n.value)
        elif isinstance(n.value, ast.Attribute):
            mm = self.denotes(m, n.value.value, local)
            if mm:
                r = w.lookup(mm, n.value.attr)
        if isinstance(r, type):
            self.count('class attributes')
            if not hasattr(r, attr) and attr not in stored:
                self.bad(rel, n.lineno, qual, 'class attribute', '%s has no %s' % (r.__name__, attr))
            return
        if r is not None:
            self.count('class attributes')
            names, whole = w.class_names(*r)
            if whole and attr not in names and not self.patched(m, r[1], attr):
                self.bad(rel, n.lineno, qual, 'class attribute', '%s has no %s' % (r[1].name, attr))
            if whole or attr in names:
                return
        t = self.typeof(m, n.value, local)
        if isinstance(t, tuple):
            self.count('attributes of values of known type')
            names, whole = w.class_names(*t)
            if attr in names:
                return
            more, w2 = self.sub.get(id(t[1]), (set(), True))
            if whole and w2 and attr not in more and not self.attr_stored(m, attr) and attr not in self.documented(m):
                self.bad(rel, n.lineno, qual, 'attribute', 'instances of %s have no attribute %s' % (t[1].name, attr))
                return
        elif t is not None:
            self.count('attributes of values of known type')
            if not hasattr(t, attr):
                self.bad(rel, n.lineno, qual, 'attribute', '%s objects have no attribute %s' % (t.__name__, attr))
            return
        if selfname and isinstance(n.value, ast.Name) and n.value.id == selfname and cls is not None:
            self.count('self attributes')
            names, whole = w.class_names(m, cls)
            more, w2 = self.sub.get(id(cls), (set(), True))
            if attr in names or attr in more:
                return
            if whole and w2 and not self.attr_stored(m, attr) and attr not in self.documented(m):
                self.bad(rel, n.lineno, qual, 'own attribute', 'nothing gives instances of %s an attribute %s' % (cls.name, attr))
                return
        if attr in stored:
            return
        if attr in PY2_METHODS:
            self.bad(rel, n.lineno, qual, 'attribute', 'no object of this interpreter has a method %s' % attr)
            return
        if self.anywhere(attr):
            return
        if attr in EXTERNAL:
            self.count('attributes of objects defined by other projects')
            return
        if self.in_stdlib(attr):
            return
        near = self.near(attr, stored)
        self.bad(rel, n.lineno, qual, 'attribute', 'no class of the library, the builtins or the installed packages has %s%s' % (
            attr, ' (but %s)' % near if near else ''))

    def typeof(self, m, e, local):
        """the builtin type an expression certainly has"""
        if isinstance(e, ast.Constant):
            return type(e.value) if e.value is not None else None
        if isinstance(e, ast.JoinedStr):
            return str
        for k, t in ((ast.List, list), (ast.ListComp, list), (ast.Dict, dict), (ast.DictComp, dict), (ast.Set, set), (ast.SetComp, set),
                     (ast.Tuple, tuple)):
            if isinstance(e, k):
                return t
        if isinstance(e, ast.Name):
            return self.ltypes.get(e.id) if e.id in local else None
        if isinstance(e, ast.Call):
            f = e.func
            r = None
            if isinstance(f, ast.Name) and f.id not in local and m.names.get(f.id, ('',))[0] in ('class', 'import'):
                r = self.world.resolve_base(m, f)
            elif isinstance(f, ast.Attribute):
                mm = self.denotes(m, f.value, local)
                if mm:
                    r = self.world.lookup(mm, f.attr)
            if isinstance(r, tuple):
                if any(isinstance(x, ast.FunctionDef) and x.name == '__new__' for x in ast.walk(r[1])):
                    return None
                return r
            if isinstance(f, ast.Name) and f.id not in local and f.id not in m.names:
                if f.id in ('str', 'bytes', 'dict', 'list', 'tuple', 'set', 'frozenset', 'int', 'float', 'bytearray', 'zip', 'map',
                            'filter', 'enumerate', 'range'):
                    return getattr(builtins, f.id)
                return {'repr': str, 'hex': str, 'chr': str, 'sorted': list, 'len': int, 'ord': int, 'iter': None}.get(f.id)
            if isinstance(f, ast.Attribute):
                t = self.typeof(m, f.value, local)
                if t in (str, bytes):
                    if f.attr in ('join', 'strip', 'lstrip', 'rstrip', 'replace', 'lower', 'upper', 'title', 'zfill', 'ljust', 'rjust',
                                  'center', 'capitalize', 'expandtabs', 'translate', 'format'):
                        return t
                    if f.attr in ('split', 'rsplit', 'splitlines'):
                        return list
                    return {'encode': bytes, 'decode': str, 'partition': tuple, 'rpartition': tuple}.get(f.attr)
                if t is dict:
                    return {'keys': type({}.keys()), 'items': type({}.items()), 'values': type({}.values()), 'copy': dict}.get(f.attr)
            return None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod):
            t = self.typeof(m, e.left, local)
            return t if t in (str, bytes) else None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.typeof(m, e.left, local), self.typeof(m, e.right, local)
            return a if a is b and a in (str, bytes, list, tuple) else None
        return None

    def near(self, attr, stored):
        """a name the library binds which differs by one or two letters"""
        if len(attr) < 5:
            return None
        self.anywhere('')
        if not hasattr(self, '_near'):
            self._near = sorted(stored | self._base | self._outdefs)
        for x in self._near:
            if abs(len(x) - len(attr)) <= 2 and len(x) >= 5 and x != attr and edits(attr, x) <= (2 if len(attr) > 7 else 1):
                return x
        return None

    def in_stdlib(self, attr):
        """does any module of the standard library or of the installed packages, or any loaded type, bind it?"""
        if not hasattr(self, '_std'):
            self._std = set()
            pat = re.compile(BINDS, re.M)
            for base in (os.path.dirname(os.__file__), site_dir()):
                for p in glob.glob(os.path.join(base, '**', '*.py'), recursive=True):
                    if '/test/' in p or '/tests/' in p or '/pip/' in p:
                        continue
                    try:
                        with open(p, encoding='utf-8', errors='replace') as f:
                            for a, b, c in pat.findall(f.read()):
                                self._std.add(a or b or c)
                    except OSError:
                        pass
            for mod in list(sys.modules.values()):
                for t in list(vars(mod).values()) if isinstance(mod, type(sys)) else ():
                    if isinstance(t, type):
                        self._std.update(dir(t))
        return attr in self._std

    def patched(self, m, node, attr):
        return False

    def attr_stored(self, m, attr):
        if not hasattr(self, '_as'):
            self._as = set()
            for f in self.files:
                mm = None
                for x in self.world.mods.values():
                    if x is not None and os.path.abspath(x.path) == os.path.abspath(f):
                        mm = x
                if mm is None:
                    continue
                for n in ast.walk(mm.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        self._as.add(n.attr)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                        for a in n.args:
                            if isinstance(a, ast.Constant) and isinstance(a.value, str):
                                self._as.add(a.value)
        return attr in self._as

    def documented(self, m):
        if not hasattr(m, '_doc'):
            m._doc = set(re.findall(r'@[ic]var\s+(\w+)', m.text))
        return m._doc

    def anywhere(self, attr):
        if not hasattr(self, '_any'):
            self._any = {}
            self._base = set()
            for t in vars(builtins).values():
                if isinstance(t, type):
                    self._base.update(dir(t))
            import types
            import datetime, re as _re, threading, io, socket, email.message, collections, importlib.machinery
            for mod in (types, datetime, threading, io, socket, collections, email.message, importlib.machinery):
                for t in vars(mod).values():
                    if isinstance(t, type):
                        self._base.update(dir(t))
            self._base.update(dir(_re.compile('')) + dir(_re.match('', '')) + dir(sys._getframe()) + dir(os.statvfs('/')) +
                              dir(os.stat('/')) + dir(sys._getframe().f_code))
            self._text = []
            for pk in ('twisted', 'zope/interface', 'OpenSSL'):
                for p in glob.glob(os.path.join(site_dir(), pk, '**', '*.py'), recursive=True):
                    if '/test/' in p:
                        continue
                    try:
                        with open(p, encoding='utf-8', errors='replace') as f:
                            self._text.append(f.read())
                    except OSError:
                        pass
            pat = re.compile(BINDS, re.M)
            self._out, self._outdefs = set(), set()
            for text in self._text:
                for a, b, c in pat.findall(text):
                    self._out.add(a or b or c)
                    if a:
                        self._outdefs.add(a)
            self._text = None
        return attr == '' or attr in self._base or attr in self._out
