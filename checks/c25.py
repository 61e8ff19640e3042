"""C25 references resolve and calls fit."""
import ast
import builtins
import importlib
import inspect
import re
import symtable
import sys
import warnings

from sa.project import Project

RULE = ('Name resolution, definite-reference and call-compatibility analysis over the syntax trees of all modules: every name is a local, a global of its module or a builtin; '
        'every imported name and every attribute of a module of the package exists; every attribute of self is defined in the class, its bases or subclasses, '
        'any other attribute by some class of the package or of the standard library; every call of a function, class or method of the package fits its parameters; '
        'text formats have as many conversions as arguments; no local is read where no assignment can have reached it.')
ASSUMPTIONS = ['modules of libraries other than the standard library are not examined: modules importing them may use any attribute of other objects',
               'classes with computed attributes (setattr with computed names) may have any attribute those names can take']

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
STDLIB = set(sys.stdlib_module_names)
PY2 = {'cStringIO', 'StringIO', '__builtin__', 'ConfigParser', 'Queue', 'cPickle', 'urllib2', 'urlparse', 'HTMLParser', 'Tkinter'}   # older names of standard modules


class Func(object):
    """Parameters of a function."""
    def __init__(self, node, mod, cls=None):
        self.node, self.mod, self.cls = node, mod, cls
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.posonly = len(a.posonlyargs)
        self.ndef = len(a.defaults)
        self.kwonly = dict((x.arg, d is not None) for x, d in zip(a.kwonlyargs, a.kw_defaults))
        self.vararg, self.kwarg = a.vararg is not None, a.kwarg is not None
        self.decos = [deco(d) for d in node.decorator_list]

    @property
    def kind(self):
        if not self.decos:
            return 'plain'
        if self.decos == ['staticmethod']:
            return 'static'
        if self.decos == ['classmethod']:
            return 'class'
        if all(d == 'property' or d.endswith(('.setter', '.getter', '.deleter')) for d in self.decos):
            return 'property'
        return 'other'

    def misfit(self, call, bound):
        """Why the call cannot bind to the parameters (None if it can)."""
        pos = self.pos[bound:]
        star = any(isinstance(a, ast.Starred) for a in call.args)
        dstar = any(k.arg is None for k in call.keywords)
        n = sum(1 for a in call.args if not isinstance(a, ast.Starred))
        if len(self.pos) < bound and not self.vararg:
            return 'it takes no %s argument' % ('bound' if bound else '')
        if n > len(pos) and not self.vararg:
            return 'it takes %d positional arguments, %d given' % (len(pos), n)
        for k in call.keywords:
            if k.arg is None:
                continue
            if k.arg in self.kwonly:
                continue
            if k.arg in pos:
                if pos.index(k.arg) < n:
                    return 'argument %s is given twice' % k.arg
                continue
            if not self.kwarg:
                return 'it has no parameter %s' % k.arg
        if not star and not dstar:
            given = set(pos[:n]) | set(k.arg for k in call.keywords)
            need = [p for i, p in enumerate(pos) if i < len(pos) - self.ndef]
            need += [k for k, d in self.kwonly.items() if not d]
            miss = [p for p in need if p not in given]
            if miss:
                return 'argument %s is missing' % ', '.join(miss)
        return None


def deco(d):
    return ast.unparse(d.func if isinstance(d, ast.Call) else d)


class Cls(object):
    def __init__(self, node, mod):
        self.node, self.mod, self.name = node, mod, node.name
        self.methods, self.attrs, self.open = {}, set(), False
        for s in node.body:
            for f in inner(s):
                if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.methods.setdefault(f.name, []).append(Func(f, mod, self))
        self.attrs |= bound_names(node.body)
        if {'__getattr__', '__getattribute__', '__slots__'} & self.attrs:
            self.open = True
        if node.decorator_list or node.keywords:
            self.open = True
        self.bases, self.subs = None, []

    def full(self):
        return self.mod.name + ':' + self.name


def inner(s):
    """Statements a compound statement of a class or module body may execute."""
    yield s
    if isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
        for b in blocks(s):
            for x in b:
                for y in inner(x):
                    yield y


def blocks(s):
    for n in ('body', 'orelse', 'finalbody'):
        b = getattr(s, n, None)
        if b:
            yield b
    for h in getattr(s, 'handlers', []):
        yield h.body


def scope_walk(nodes):
    """Nodes of a scope without those of nested functions and classes."""
    todo = list(nodes)
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, FUNCS):
            todo = list(getattr(n, 'decorator_list', [])) + list(n.args.defaults) + [d for d in n.args.kw_defaults if d] + todo
            continue
        if isinstance(n, ast.ClassDef):
            todo = list(n.decorator_list) + list(n.bases) + todo
            continue
        todo = list(ast.iter_child_nodes(n)) + todo


def bound_names(body):
    out = set()
    for n in scope_walk(body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
    return out


class Mod(object):
    def __init__(self, name, tree, src, path, package):
        self.name, self.tree, self.src, self.path = name, tree, src, path
        self.package = package
        self.names = bound_names(tree.body)
        for n in ast.walk(tree):
            if isinstance(n, ast.Global):
                self.names |= set(n.names)
        self.names |= {'__name__', '__file__', '__doc__', '__package__', '__path__', '__builtins__', '__spec__', '__loader__'}
        self.imports = {}       # local name -> ('mod', module) or ('from', module, name)
        self.star = []
        self.foreign = False    # uses libraries that are not examined
        self.defs = {}          # name -> list of Func or Cls
        self.binds = {}


def optional(tree):
    """Nodes inside try statements that catch what a failing reference raises, or under version tests."""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Try):
            caught = set()
            for h in n.handlers:
                caught |= set(x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)) if h.type is not None else set()
            if caught & {'NameError', 'ImportError', 'ModuleNotFoundError', 'AttributeError', 'TypeError'}:
                for s in n.body:
                    out |= set(map(id, ast.walk(s)))
        elif isinstance(n, (ast.If, ast.IfExp)):
            t = ast.unparse(n.test)
            if 'sys.version' in t or 'version_info' in t or 'PY2' in t or 'PY3' in t or 'TYPE_CHECKING' in t:
                out |= set(map(id, ast.walk(n)))
    return out


class World(object):
    def __init__(self):
        self.P = Project()
        self.mods = {}
        for name in self.P.modules():
            tree = self.P.tree(name)
            with open(self.P.path(name), 'rb') as f:
                src = f.read()
            self.mods[name] = Mod(name, tree, src, self.P.path(name)[len(self.P.root) + 1:], self.P.is_package(name))
        self.lib = {}
        for m in self.mods.values():
            self.collect(m)
        self.classes = [c for m in self.mods.values() for ds in m.defs.values() for c in ds if isinstance(c, Cls)]
        for c in self.classes:
            c.bases = [self.resolve_class(c.mod, b) for b in c.node.bases]
        for c in self.classes:
            for b in self.mro(c)[1:]:
                if isinstance(b, Cls):
                    b.subs.append(c)
        self.self_attrs()
        self.universe()

    # -- modules
    def collect(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if self.foreign(a.name):
                        m.foreign = True
                    m.imports[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                src = self.absolute(m, n)
                if self.foreign(src):
                    m.foreign = True
                for a in n.names:
                    if a.name == '*':
                        m.star.append(src)
                    else:
                        m.imports[a.asname or a.name] = ('from', src, a.name)
        count = {}
        for n in scope_walk(m.tree.body):
            for x in ([n.name] if isinstance(n, (ast.FunctionDef, ast.ClassDef)) else [n.id] if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) else
                      [(a.asname or a.name).split('.')[0] for a in n.names] if isinstance(n, (ast.Import, ast.ImportFrom)) else []):
                count[x] = count.get(x, 0) + 1
            if isinstance(n, ast.FunctionDef):
                m.defs.setdefault(n.name, []).append(Func(n, m))
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef):
                m.defs.setdefault(n.name, []).append(Cls(n, m))
                count.setdefault(n.name, 2)
        m.binds = count

    def absolute(self, m, n):
        if not n.level:
            return n.module
        parts = m.name.split('.')
        up = n.level - (1 if m.package else 0)
        base = parts[:len(parts) - up] if up else parts
        return '.'.join(base + ([n.module] if n.module else []))

    def foreign(self, name):
        return not self.internal(name) and name.split('.')[0] not in STDLIB | PY2 and name != '__future__'

    def internal(self, name):
        return name in self.mods or name.split('.')[0] == 'gerber'

    def library(self, name):
        """Attributes of a standard library module, None if it cannot be told."""
        if name not in self.lib:
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    self.lib[name] = importlib.import_module(name)
            except Exception:
                self.lib[name] = None
        return self.lib[name]

    def exports(self, name, seen=()):
        """Names of a module of the package; None if unknown."""
        m = self.mods.get(name)
        if m is None:
            return None
        out = set(m.names)
        if m.package:
            out |= set(x[len(name) + 1:] for x in self.mods if x.startswith(name + '.') and '.' not in x[len(name) + 1:])
        for s in m.star:
            if s in seen:
                continue
            e = self.exports(s, seen + (name,)) if self.internal(s) else self.lib_names(s)
            if e is None:
                return None
            out |= e
        return out

    def lib_names(self, name):
        if name.split('.')[0] not in STDLIB:
            return None
        lib = self.library(name)
        return set(dir(lib)) if lib is not None else None

    # -- resolution of global names
    def lookup(self, m, name, depth=0):
        """Func or Cls a global name of the module means, ('mod', name), or None."""
        if depth > 8:
            return None
        if name in m.defs and m.binds.get(name) == 1 or (name in m.defs and len(m.defs[name]) == 1 and name not in m.imports and m.binds.get(name, 0) <= 1):
            return m.defs[name][0]
        if name in m.imports and m.binds.get(name, 1) == 1:
            imp = m.imports[name]
            if imp[0] == 'mod':
                return imp if self.internal(imp[1]) else None
            if imp[1] + '.' + imp[2] in self.mods and (imp[1] not in self.mods or imp[2] not in self.mods[imp[1]].names):
                return ('mod', imp[1] + '.' + imp[2])
            if imp[1] in self.mods:
                return self.lookup(self.mods[imp[1]], imp[2], depth + 1)
            return None
        if name not in m.names:
            for s in m.star:
                if s in self.mods and name in (self.exports(s) or ()):
                    return self.lookup(self.mods[s], name, depth + 1)
        return None

    def resolve_class(self, m, e):
        if isinstance(e, ast.Name):
            if e.id == 'object':
                return object
            r = self.lookup(m, e.id)
            if isinstance(r, Cls):
                return r
            b = getattr(builtins, e.id, None)
            if r is None and e.id not in m.names and isinstance(b, type):
                return b
        elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            r = self.lookup(m, e.value.id)
            if isinstance(r, tuple) and r[1] in self.mods:
                c = self.lookup(self.mods[r[1]], e.attr)
                return c if isinstance(c, Cls) else None
        return None

    def mro(self, c, seen=()):
        """Class and its bases in lookup order (None: unknown base)."""
        out = [c]
        if not isinstance(c, Cls):
            return out
        for b in c.bases:
            if b in seen:
                continue
            for x in self.mro(b, seen + (c,)) if isinstance(b, Cls) else [b]:
                if x in out and x is not None:
                    out.remove(x)
                out.append(x)
        return out

    def method(self, c, name, after=None):
        """The definition a lookup from class c finds: Func, or None if it is not certain."""
        for k in self.mro(c):
            if after is not None:
                if k is after:
                    after = None
                continue
            if k is None:
                return None
            if not isinstance(k, Cls):
                continue
            if k.open:
                return None
            if name in k.attrs:
                fs = k.methods.get(name, [])
                return fs[0] if len(fs) == 1 and name not in k.stored else None
        return None

    def self_attrs(self):
        """Attributes classes give their objects; those given from outside."""
        self.outside = set()
        for m in self.mods.values():
            for f in ast.walk(m.tree):
                if isinstance(f, ast.Attribute) and isinstance(f.ctx, ast.Store):
                    self.outside.add(f.attr)
                elif isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id in ('setattr', 'hasattr', 'getattr') and len(f.args) > 1 and isinstance(f.args[1], ast.Constant):
                    self.outside.add(f.args[1].value)
        for c in self.classes:
            c.stored = set()
            for fs in c.methods.values():
                for f in fs:
                    if not f.pos or f.kind in ('static',):
                        continue
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == f.pos[0]:
                            c.stored.add(n.attr)
                        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1 and not isinstance(n.args[1], ast.Constant):
                            c.any = True
                        elif isinstance(n, ast.Attribute) and n.attr == '__dict__' and isinstance(n.ctx, ast.Store):
                            c.open = True
                        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('update', 'setdefault') and '__dict__' in ast.unparse(n.func.value):
                            c.open = True

    def attr_type(self, c, attr, lint):
        """The builtin type all assignments in the package give this attribute, if it is evident."""
        if not hasattr(self, '_stores'):
            self._stores = {}
            for m in self.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For, ast.With, ast.Delete)):
                        ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if not isinstance(n, ast.With) else [i.optional_vars for i in n.items if i.optional_vars is not None]
                        for t in ts:
                            for x in ast.walk(t):
                                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                                    self._stores.setdefault(x.attr, []).append(n.value if isinstance(n, ast.Assign) and x is t else None)
        fam = self.mro(c)
        for s in c.subs:
            fam = fam + self.mro(s)
        if any(k is None or (isinstance(k, Cls) and (k.open or getattr(k, 'any', False) or attr in k.attrs)) for k in fam):
            return None
        vs = self._stores.get(attr)
        if not vs or any(not isinstance(v, (ast.List, ast.ListComp, ast.Dict, ast.DictComp, ast.Set, ast.SetComp)) and not (isinstance(v, ast.Constant) and isinstance(v.value, str)) for v in vs):
            return None
        ts = set(lint.type_of(v) for v in vs)
        return ts.pop() if len(ts) == 1 else None

    def has(self, c, attr, subs=True):
        """May an object of class c or a subclass have this attribute?"""
        fam = self.mro(c)
        for s in c.subs if subs else ():
            fam = fam + self.mro(s)
        for k in fam:
            if k is None:
                return True
            if isinstance(k, Cls):
                if k.open or attr in k.attrs or attr in k.stored:
                    return True
                if getattr(k, 'any', False) and attr in self.words():
                    return True
            elif hasattr(k, attr):
                return True
        return hasattr(object, attr) or attr in ('__dict__', '__module__', '__weakref__')

    def words(self):
        """Identifiers that occur as text: attribute names may be made of them."""
        if not hasattr(self, '_words'):
            self._words = set()
            for m in self.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Constant) and isinstance(n.value, str):
                        self._words |= set(re.findall(r'\w+', n.value)) if len(n.value) < 200 else set()
                    elif isinstance(n, ast.keyword) and n.arg:
                        self._words.add(n.arg)
        return self._words

    def universe(self):
        """Attribute names objects of the package or the standard library have."""
        self.by_name = {}
        own = set(self.outside)
        for c in self.classes:
            own |= c.attrs | c.stored
            for a in c.attrs | c.stored:
                fs = c.methods.get(a, [])
                self.by_name.setdefault(a, []).append(fs[0] if len(fs) == 1 and a not in c.stored and fs[0].kind in ('plain', 'static', 'class') and not c.open else None)
        u = set()
        for c in self.classes:
            for n in ast.walk(c.node):
                if isinstance(n, ast.Call) and ast.unparse(n.func).endswith('namedtuple'):
                    u |= self.words()
        for m in self.mods.values():
            if 'namedtuple' in m.names or any(i[-1] in ('namedtuple', 'collections') for i in m.imports.values()):
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Call) and ast.unparse(n.func).endswith('namedtuple'):
                        for x in ast.walk(n):
                            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                                u |= set(re.findall(r'\w+', x.value))
        u |= self.words() if any(getattr(c, 'any', False) for c in self.classes) else set()
        for b in vars(builtins).values():
            u |= set(dir(b))
        for f in ((lambda: 0), type(sys), (i for i in ())):
            u |= set(dir(f))
        u |= set(dir(sys._getframe()))
        libs = set()
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Import):
                    libs |= set(a.name for a in n.names)
                elif isinstance(n, ast.ImportFrom) and not n.level:
                    libs.add(n.module)
        for name in sorted(libs):
            if name.split('.')[0] in STDLIB:
                lib = self.library(name)
                if lib is None:
                    continue
                u |= set(dir(lib))
                for x in list(vars(lib).values()):
                    u |= set(dir(x))
        import re as re_
        u |= set(dir(re_.compile('x'))) | set(dir(re_.match('x', 'x')))
        u |= set(dir(open(__file__, 'rb'))) | set(dir(sys.stdout))
        import io
        u |= set(dir(io.StringIO())) | set(dir(io.BytesIO()))
        self.known_lib = u
        self.known = u | own


def functions(tree):
    """(function node, enclosing class node or None, qualified name)"""
    def go(body, cls, qual):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield s, cls, qual + s.name
                for x in go(s.body, None, qual + s.name + '.'):
                    yield x
            elif isinstance(s, ast.ClassDef):
                for x in go(s.body, s, qual + s.name + '.'):
                    yield x
            else:
                for b in blocks(s):
                    for x in go(b, cls, qual):
                        yield x
    return go(tree.body, None, '')


class Lint(object):
    def __init__(self, O, W, m):
        self.O, self.W, self.m = O, W, m
        self.opt = optional(m.tree)
        self.n = {}

    def ok(self, rule, node, what):
        self.O.ok(self.key(rule, node, what), what)

    def key(self, rule, node, what):
        k = '%s:%s:%s:%s' % (self.m.name, rule, self.qual, what)
        self.n[k] = self.n.get(k, 0) + 1
        return k if self.n[k] == 1 else '%s#%d' % (k, self.n[k])

    def bad(self, rule, node, what, msg):
        self.O.fail(self.key(rule, node, what), '%s:%d (%s)' % (self.m.path, node.lineno, self.qual or 'module'), msg)

    def judge(self, good, rule, node, what, msg):
        if good:
            self.ok(rule, node, what)
        elif id(node) not in self.opt:
            self.bad(rule, node, what, msg)

    # -- names
    def names(self):
        W, m = self.W, self.m
        self.qual = ''
        star_unknown = False
        ext = set()
        for s in m.star:
            e = W.exports(s) if W.internal(s) else W.lib_names(s)
            if e is None:
                star_unknown = True
            else:
                ext |= e
        known = m.names | ext | set(dir(builtins))
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                src = W.absolute(m, n)
                if W.internal(src):
                    self.judge(src in W.mods or not n.names, 'import', n, src, 'module %s does not exist' % src)
                    e = W.exports(src)
                elif src == '__future__':
                    e = None
                else:
                    e = W.lib_names(src)
                    if e is not None:
                        e = e | set(x for x in (a.name for a in n.names) if W.library(src + '.' + x) is not None) if not all(a.name in e or a.name == '*' for a in n.names) else e
                if e is not None:
                    for a in n.names:
                        if a.name != '*':
                            self.judge(a.name in e, 'import', n, src + '.' + a.name, 'module %s has no %s' % (src, a.name))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if W.internal(a.name):
                        self.judge(a.name in W.mods, 'import', n, a.name, 'module %s does not exist' % a.name)
        if star_unknown:
            return
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            top = symtable.symtable(m.src.decode('utf-8'), m.path, 'exec')
        glob = {}

        def go(t, qual):
            for s in t.get_symbols():
                if t.get_type() == 'module' or (s.is_global() and not s.is_assigned()) or (s.is_global() and s.is_declared_global()):
                    if s.is_referenced():
                        glob.setdefault((qual, s.get_name()), t.get_lineno())
            for c in t.get_children():
                go(c, qual + c.get_name() + '.')
        go(top, '')
        lines = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                lines.setdefault(n.id, []).append(n)
        for (qual, name), line in sorted(glob.items()):
            self.qual = qual.rstrip('.')
            if name.startswith('.'):
                continue
            at = [n for n in lines.get(name, []) if n.lineno >= line] or lines.get(name)
            if at:
                self.judge(name in known or name == '__class__', 'name', at[0], name, 'name %s is not defined' % name)

    # -- attributes
    def attributes(self):
        W, m = self.W, self.m
        for f, c, qual in list(functions(m.tree)):
            self.qual = qual
            self.O.functions.add(m.name + ':' + qual)
            cls = next((k for k in m.defs.get(c.name, []) if isinstance(k, Cls) and k.node is c), None) if c is not None else None
            me = None
            F = Func(f, m)
            if cls is not None and F.pos and F.kind != 'static':
                me = F.pos[0]
                if any(isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id == me for n in ast.walk(f)):
                    me = None
            mine = locals_of(f)
            self.local_types(f, mine, cls, me)
            for n in own_nodes(f):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    self.attribute(n, cls, me, mine)
                elif isinstance(n, ast.Call):
                    self.call(n, cls, me, F, mine)
                    self.format(n)
                elif isinstance(n, ast.BinOp):
                    self.format(n)
        self.qual, self.types = '', {}
        todo = [m.tree.body] + [c.body for c in ast.walk(m.tree) if isinstance(c, ast.ClassDef)]
        for n in [x for b in todo for x in scope_walk(b)]:
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                self.attribute(n, None, None, set())
            elif isinstance(n, ast.Call):
                self.call(n, None, None, None, set())
                self.format(n)
            elif isinstance(n, ast.BinOp):
                self.format(n)

    # -- types of values that are evident
    def local_types(self, f, mine, cls, me):
        self.types = {}
        self.me, self.cls = me, cls
        vals, bad = {}, set(x.arg for x in f.args.posonlyargs + f.args.args + f.args.kwonlyargs) | set(x.arg for x in (f.args.vararg, f.args.kwarg) if x)
        seen = set()
        for n in ast.walk(f):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                vals.setdefault(n.targets[0].id, []).append(n.value)
                seen.add(id(n.targets[0]))
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                bad.add(n.target.id)
            elif isinstance(n, FUNCS) and n is not f:
                b = n.args
                bad |= set(x.arg for x in b.posonlyargs + b.args + b.kwonlyargs)
                bad |= bound_names(n.body) if not isinstance(n, ast.Lambda) else set()
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                bad |= set(n.names)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                bad.add(n.name)
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in seen:
                bad.add(n.id)
        self.mine = mine
        for _ in range(3):
            for k, vs in vals.items():
                if k not in bad:
                    ts = [self.type_of(v) for v in vs]
                    if ts[0] is not None and all(t is ts[0] for t in ts):
                        self.types[k] = ts[0]

    STR = {'strip': str, 'lstrip': str, 'rstrip': str, 'upper': str, 'lower': str, 'replace': str, 'join': str, 'format': str, 'split': list, 'splitlines': list, 'rsplit': list,
           'title': str, 'capitalize': str, 'zfill': str, 'ljust': str, 'rjust': str}

    def type_of(self, e):
        """The type of the value, if it is evident: a class of the package or a builtin type."""
        if isinstance(e, ast.Constant):
            return type(e.value) if isinstance(e.value, (str, bytes)) else None
        if isinstance(e, ast.JoinedStr):
            return str
        if isinstance(e, (ast.List, ast.ListComp)):
            return list
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return dict
        if isinstance(e, (ast.Set, ast.SetComp)):
            return set
        if isinstance(e, ast.Tuple):
            return tuple
        if isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load):
            return self.types.get(e.id)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
            return str
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.type_of(e.left), self.type_of(e.right)
            return a if a is b and a in (str, list, tuple) else None
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and self.types is not None and e.value.id == getattr(self, 'me', None) and self.cls is not None:
            return self.W.attr_type(self.cls, e.attr, self)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id not in getattr(self, 'mine', ()):
                r = self.W.lookup(self.m, e.func.id)
                if isinstance(r, Cls):
                    ks = self.W.mro(r)
                    return r if None not in ks and not any(isinstance(k, Cls) and (k.open or '__new__' in k.attrs) for k in ks) else None
                if e.func.id in ('list', 'dict', 'set', 'str', 'sorted') and e.func.id not in self.m.names and not self.m.star:
                    return {'list': list, 'dict': dict, 'set': set, 'str': str, 'sorted': list}[e.func.id]
            elif isinstance(e.func, ast.Attribute) and self.type_of(e.func.value) is str:
                return self.STR.get(e.func.attr)
        return None

    def attribute(self, n, cls, me, mine):
        W, m = self.W, self.m
        t = self.type_of(n.value)
        if isinstance(t, Cls):
            self.judge(W.has(t, n.attr, False) or n.attr in W.outside, 'of', n, t.name + '.' + n.attr, 'class %s has no attribute %s' % (t.name, n.attr))
            return
        if t is not None:
            self.judge(hasattr(t, n.attr), 'of', n, t.__name__ + '.' + n.attr, '%s has no attribute %s' % (t.__name__, n.attr))
            return
        if isinstance(n.value, ast.Name) and n.value.id == me:
            self.judge(W.has(cls, n.attr) or (n.attr in W.outside and not class_stores_all(cls, W)), 'self', n, 'self.' + n.attr, 'class %s has no attribute %s' % (cls.name, n.attr))
            return
        if isinstance(n.value, ast.Name) and n.value.id not in mine:
            r = W.lookup(m, n.value.id)
            if isinstance(r, tuple) and r[1] in W.mods:
                e = W.exports(r[1])
                if e is not None:
                    self.judge(n.attr in e, 'module', n, r[1] + '.' + n.attr, 'module %s has no %s' % (r[1], n.attr))
                return
            imp = m.imports.get(n.value.id)
            if imp and imp[0] == 'mod' and imp[1].split('.')[0] in STDLIB and m.binds.get(n.value.id) == 1:
                lib = W.library(imp[1])
                if lib is not None:
                    self.judge(hasattr(lib, n.attr), 'module', n, imp[1] + '.' + n.attr, 'module %s has no %s' % (imp[1], n.attr))
                return
            if isinstance(r, Cls):
                self.judge(W.has(r, n.attr) or n.attr in ('__name__', '__mro__', '__subclasses__', '__bases__', '__qualname__') or n.attr in W.outside, 'class', n, r.name + '.' + n.attr, 'class %s has no attribute %s' % (r.name, n.attr))
                return
        if m.foreign:
            return
        self.judge(n.attr in W.known, 'attribute', n, '.' + n.attr, 'no class has an attribute %s' % n.attr)

    # -- calls
    def call(self, n, cls, me, F, mine):
        W, m = self.W, self.m
        f = n.func
        target, bound, name = None, 0, None
        t = self.type_of(f.value) if isinstance(f, ast.Attribute) else None
        if t is not None and not isinstance(t, Cls):
            if hasattr(t, f.attr):
                self.library_call(n, getattr(t, f.attr), t.__name__ + '.' + f.attr, 1)
            return
        if isinstance(t, Cls):
            target, bound, name = W.method(t, f.attr), 1, f.attr
            if isinstance(target, Func) and (target.kind == 'static' or f.attr in W.outside):
                bound, target = 0, target if f.attr not in W.outside else None
        elif isinstance(f, ast.Name) and f.id not in mine:
            target = W.lookup(m, f.id)
            name = f.id
            if target is None:
                imp = m.imports.get(f.id)
                if imp and imp[0] == 'from' and imp[1].split('.')[0] in STDLIB and m.binds.get(f.id) == 1:
                    lib = W.library(imp[1])
                    if hasattr(lib, imp[2]):
                        self.library_call(n, getattr(lib, imp[2]), f.id, 0)
                elif imp is None and f.id not in m.names and hasattr(builtins, f.id) and not any(f.id in (W.exports(s) or (f.id,)) for s in m.star):
                    self.library_call(n, getattr(builtins, f.id), f.id, 0)
                return
        elif isinstance(f, ast.Name) and F is not None and F.kind == 'class' and cls is not None and f.id == me:
            target, name = cls, f.id
        elif isinstance(f, ast.Attribute):
            v = f.value
            name = f.attr
            if isinstance(v, ast.Name) and v.id == me:
                target, bound = W.method(cls, f.attr), 1
                if isinstance(target, Func):
                    for s in cls.subs:      # an override decides as well
                        if W.method(s, f.attr) is not target:
                            t2 = W.method(s, f.attr)
                            if t2 is None or t2.kind != target.kind:
                                target = None
                                break
                    if target is not None and target.kind == 'static':
                        bound = 0
                    if target is not None and target.kind == 'plain' and F.kind == 'class':
                        target = None
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and cls is not None and F is not None:
                start = cls
                if len(v.args) == 2:
                    start = W.resolve_class(m, v.args[0])
                if isinstance(start, Cls) and start is cls and not any(len(k.bases) > 1 for k in cls.subs):
                    target, bound = W.method(cls, f.attr, after=cls), 1
                    if f.attr == '__new__':
                        target = None
            elif isinstance(v, ast.Name) and v.id not in mine:
                r = W.lookup(m, v.id)
                imp = m.imports.get(v.id)
                if imp and imp[0] == 'mod' and imp[1].split('.')[0] in STDLIB and m.binds.get(v.id) == 1:
                    lib = W.library(imp[1])
                    if hasattr(lib, f.attr):
                        self.library_call(n, getattr(lib, f.attr), v.id + '.' + f.attr, 0)
                elif isinstance(r, tuple) and r[1] in W.mods:
                    target = W.lookup(W.mods[r[1]], f.attr)
                elif isinstance(r, Cls):
                    target = W.method(r, f.attr)
                    bound = 1 if isinstance(target, Func) and target.kind == 'class' else 0
        if isinstance(target, Cls):
            ks = W.mro(target)
            if None in ks or any(isinstance(k, Cls) and (k.open or '__new__' in k.attrs) for k in ks):
                return
            init = W.method(target, '__init__')
            if init is None:
                if any(isinstance(k, Cls) and '__init__' in k.attrs for k in ks) or any(k not in (object,) and not isinstance(k, Cls) for k in ks):
                    return
                self.judge(not n.args and not n.keywords, 'call', n, target.name + '()', 'class %s takes no arguments' % target.name)
                return
            target, bound = init, 1
            name = target.cls.name
        if target is None and isinstance(f, ast.Attribute) and not m.foreign and not isinstance(f.value, ast.Call):
            self.some_method(n)
            return
        if not isinstance(target, Func) or target.kind not in ('plain', 'static', 'class'):
            return
        why = target.misfit(n, bound)
        self.judge(why is None, 'call', n, (name or '') + '()', 'call of %s (%s:%d): %s' % (name, target.mod.path, target.node.lineno, why))

    ARITY = {'set.add': (1, 1), 'set.discard': (1, 1), 'set.remove': (1, 1), 'dict.get': (1, 2), 'dict.keys': (0, 0), 'dict.values': (0, 0), 'dict.items': (0, 0), 'str.startswith': (1, 3),
             'str.endswith': (1, 3), 'str.join': (1, 1), 'str.strip': (0, 1), 'str.find': (1, 3), 'str.count': (1, 3), 'list.pop': (0, 1), 'dict.pop': (1, 2), 'list.index': (1, 3)}

    def library_call(self, n, fn, name, bound):
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return
        if isinstance(fn, type) and issubclass(fn, BaseException):
            return
        try:
            sig = inspect.signature(fn)
        except (ValueError, TypeError):
            if name in self.ARITY:
                lo, hi = self.ARITY[name]
                self.judge(lo <= len(n.args) + len(n.keywords) <= hi, 'library', n, name + '()', 'call of %s with %d arguments' % (name, len(n.args)))
            return
        if any(str(p.default) == '<unrepresentable>' for p in sig.parameters.values()):
            return
        try:
            sig.bind(*([None] * (bound + len(n.args))), **dict((k.arg, None) for k in n.keywords))
            self.ok('library', n, name + '()')
        except TypeError as e:
            self.judge(False, 'library', n, name + '()', 'call of %s: %s' % (name, e))

    def some_method(self, n):
        """A call of a method of an object of unknown class: some class must have a method it fits."""
        name = n.func.attr
        if name in self.W.known_lib or name in self.W.outside or name not in self.W.by_name:
            return
        fs = self.W.by_name[name]
        if any(f is None for f in fs):
            return
        why = [f.misfit(n, 0 if f.kind == 'static' else 1) for f in fs]
        # through the class itself the object is an argument
        fits = None in why or (isinstance(n.func.value, ast.Name) and any(f.misfit(n, 0) is None for f in fs) and n.func.value.id[:1].isupper())
        self.judge(fits, 'method', n, '.' + name + '()', 'call of %s (%s:%d): %s' % (name, fs[0].mod.path, fs[0].node.lineno, why[0]))

    # -- text formats
    def format(self, n):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) and isinstance(n.right, ast.Tuple):
            if any(isinstance(e, ast.Starred) for e in n.right.elts):
                return
            t = n.left.value.replace('%%', '')
            specs = re.findall(r'%(\(\w*\))?[-+ #0]*(\*|\d*)(?:\.(\*|\d*))?[hlL]?([a-zA-Z])', t)
            if any(s[0] for s in specs):
                return
            want = len(specs) + sum(1 for s in specs for x in s[1:3] if x == '*')
            self.judge(want == len(n.right.elts), 'format', n, repr(n.left.value)[:40], 'format %r has %d conversions for %d values' % (n.left.value, want, len(n.right.elts)))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
            if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                return
            import string
            try:
                fields = []
                for _, fn, spec, _ in string.Formatter().parse(n.func.value.value):
                    if fn is not None:
                        fields.append(fn)
                        fields += [x for _, x, _, _ in string.Formatter().parse(spec or '') if x is not None]
            except ValueError as e:
                self.bad('format', n, repr(n.func.value.value)[:40], 'format %r: %s' % (n.func.value.value, e))
                return
            auto, bad = 0, None
            for fn in fields:
                base = re.split(r'[.\[]', fn)[0]
                if base == '':
                    base, auto = str(auto), auto + 1
                if base.isdigit():
                    if int(base) >= len(n.args):
                        bad = base
                elif base not in [k.arg for k in n.keywords]:
                    bad = base
            self.judge(bad is None, 'format', n, repr(n.func.value.value)[:40], 'format %r has no value for field %s' % (n.func.value.value, bad))

    # -- locals
    def definite(self):
        for f, c, qual in functions(self.m.tree):
            self.qual = qual
            Reach(self, f).run()


def class_stores_all(cls, W):
    """Are the attributes of the class known completely (nothing else sets them)?"""
    return False


def locals_of(f):
    glob = set(x for n in ast.walk(f) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names)
    a = f.args
    out = set(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs) | set(x.arg for x in (a.vararg, a.kwarg) if x)
    out |= bound_names(f.body)
    for n in ast.walk(f):
        if isinstance(n, ast.comprehension):
            out |= set(x.id for x in ast.walk(n.target) if isinstance(x, ast.Name))
        elif isinstance(n, FUNCS) and n is not f:
            b = n.args
            out |= set(x.arg for x in b.posonlyargs + b.args + b.kwonlyargs) | set(x.arg for x in (b.vararg, b.kwarg) if x)
    return out - glob


def own_nodes(f):
    """Nodes of a function including lambdas and comprehensions, without nested functions and classes."""
    todo = list(f.body)
    while todo:
        n = todo.pop(0)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        yield n
        todo = list(ast.iter_child_nodes(n)) + todo


class Reach(object):
    """May an assignment have reached a local where it is read?"""
    def __init__(self, lint, f):
        self.lint, self.f = lint, f
        glob = set(x for n in ast.walk(f) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names)
        a = f.args
        self.params = set(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs) | set(x.arg for x in (a.vararg, a.kwarg) if x)
        self.vars = bound_names(f.body) - glob - self.params
        self.loops = []

    def run(self):
        if any(isinstance(n, ast.Match) for n in own_nodes(self.f)):
            return
        self.block(self.f.body, frozenset(self.params))

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def use(self, e, st):
        """Reads of an expression; returns the names it binds (walrus)."""
        if e is None:
            return st
        for n in self.reads(e, frozenset()):
            name = n.id
            if name in self.vars:
                self.lint.judge(name in st, 'assigned', n, name, 'local %s is read where no assignment can have reached it' % name)
        w = set(x.target.id for x in ast.walk(e) if isinstance(x, ast.NamedExpr))
        return st | w if w else st

    def reads(self, e, hide):
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, (ast.Load, ast.Del)) and e.id not in hide:
                yield e
            return
        if isinstance(e, ast.Lambda):
            return      # runs later
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for x in self.reads(e.generators[0].iter, hide):
                yield x
            inside = hide | set(x.id for g in e.generators for x in ast.walk(g.target) if isinstance(x, ast.Name))
            for g in e.generators:
                for c in g.ifs + ([g.iter] if g is not e.generators[0] else []):
                    for x in self.reads(c, inside):
                        yield x
            for c in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                for x in self.reads(c, inside):
                    yield x
            return
        if any(isinstance(x, ast.NamedExpr) for x in ast.walk(e)):
            hide = hide | set(x.target.id for x in ast.walk(e) if isinstance(x, ast.NamedExpr))
        for c in ast.iter_child_nodes(e):
            for x in self.reads(c, hide):
                yield x

    def target(self, t, st):
        if isinstance(t, ast.Name):
            return st | {t.id}
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                st = self.target(x, st)
            return st
        if isinstance(t, ast.Starred):
            return self.target(t.value, st)
        return self.use(t, st)

    def all_in(self, body):
        return frozenset(bound_names(body))

    def join(self, *sts):
        out = None
        for s in sts:
            if s is not None:
                out = s if out is None else out | s
        return out

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            st = self.use(s.value, st)
            for t in s.targets:
                st = self.target(t, st)
            return st
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                if s.target.id in self.vars:
                    self.lint.judge(s.target.id in st, 'assigned', s, s.target.id, 'local %s is changed where no assignment can have reached it' % s.target.id)
                return self.use(s.value, st) | {s.target.id}
            return self.use(s.target, self.use(s.value, st))
        if isinstance(s, ast.AnnAssign):
            return self.target(s.target, self.use(s.value, st)) if s.value is not None else st
        if isinstance(s, (ast.Return, ast.Raise)):
            for e in ast.iter_child_nodes(s):
                self.use(e, st)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        if isinstance(s, ast.If):
            st = self.use(s.test, st)
            return self.join(self.block(s.body, st), self.block(s.orelse, st))
        if isinstance(s, (ast.For, ast.AsyncFor)):
            st = self.use(s.iter, st)
            inner_ = st | self.all_in(s.body)
            self.block(s.body, self.target(s.target, inner_))
            out = st | self.all_in(s.body) | set(x.id for x in ast.walk(s.target) if isinstance(x, ast.Name))
            return self.join(out, self.block(s.orelse, out)) if s.orelse else out
        if isinstance(s, ast.While):
            inner_ = st | self.all_in(s.body)
            self.use(s.test, inner_)
            self.block(s.body, inner_)
            if isinstance(s.test, ast.Constant) and s.test.value and not any(isinstance(n, ast.Break) for n in ast.walk(s)):
                return None
            return self.join(inner_, self.block(s.orelse, inner_)) if s.orelse else inner_
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                st = self.use(i.context_expr, st)
                if i.optional_vars is not None:
                    st = self.target(i.optional_vars, st)
            out = self.block(s.body, st)
            return self.join(out, st | self.all_in(s.body)) if out is None else out     # the manager may swallow exceptions
        if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            out = self.block(s.body, st)
            if s.orelse and out is not None:
                out = self.block(s.orelse, out)
            mid = st | self.all_in(s.body)
            for h in s.handlers:
                self.use(h.type, mid)
                o = self.block(h.body, mid | {h.name} if h.name else mid)
                if o is not None and h.name:
                    o = o - {h.name}
                out = self.join(out, o)
            if s.finalbody:
                every = st | self.all_in(s.body + s.orelse + [x for h in s.handlers for x in h.body])
                fin = self.block(s.finalbody, every)
                return None if fin is None or out is None else out | self.all_in(s.finalbody)
            return out
        if isinstance(s, ast.Delete):
            for t in s.targets:
                self.use(t, st)
                if isinstance(t, ast.Name):
                    st = st - {t.id}
            return st
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return st | {s.name}
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return st | set((a.asname or a.name).split('.')[0] for a in s.names)
        if isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass)):
            return st
        for e in ast.iter_child_nodes(s):
            st = self.use(e, st)
        return st


def run(O, thorough):
    W = World()
    for m in W.mods.values():
        L = Lint(O, W, m)
        L.names()
        L.attributes()
        L.definite()
    O.files.update(W.P.used)
