"""Abstract interpreter over the Python syntax trees of the analysed project.

Flow-sensitive and interprocedural; control-flow joins merge abstract states
(state.join).  Nothing from the analysed project is imported or executed.
"""

import ast
import os
import sys

from .values import *
from .state import *

sys.setrecursionlimit(20000)


NT_NAMES = {'_replace', '_asdict', '_fields', 'index', 'count'}


class PyRaise(Exception):
    """Definite exception of the analysed program (current state = interp.st)."""

    def __init__(self, val):
        Exception.__init__(self, show(val))
        self.val = val


class Dead(Exception):
    """No feasible state continues (all paths raised / returned)."""


class Budget(Exception):
    """Analysis budget exceeded: result undecided."""


class Flow(object):
    """Abrupt completions of a block (normal completion is interp.st)."""
    __slots__ = ('ret', 'brk', 'cont')

    def __init__(self):
        self.ret = None     # (state, value)
        self.brk = None
        self.cont = None

    def add_ret(self, st, v):
        if self.ret is None:
            self.ret = (st, v)
        else:
            s, w = self.ret
            self.ret = joinv([(s, w), (st, v)])

    def merge(self, o):
        if o.ret is not None:
            self.add_ret(*o.ret)
        self.brk = join(self.brk, o.brk)
        self.cont = join(self.cont, o.cont)


class Frame(object):
    __slots__ = ('env', 'mod', 'fn', 'self_', 'globals_', 'yields', 'cls', 'nonlocals', 'locals_')

    def __init__(self, env, mod, fn=None, self_=None, cls=None):
        self.env = env
        self.mod = mod
        self.fn = fn
        self.self_ = self_
        self.cls = cls
        self.globals_ = set()
        self.nonlocals = set()
        self.yields = None
        self.locals_ = None


def has_yield(node):
    for n in walk_scope(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def walk_scope(fn):
    """Nodes of a function body excluding nested scopes."""
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


import builtins as _pyb

BUILTIN_EXC = dict((n, getattr(_pyb, n)) for n in dir(_pyb)
                   if isinstance(getattr(_pyb, n), type) and issubclass(getattr(_pyb, n), BaseException))


class Interp(object):
    MAX_STEPS = 4000000
    MAX_DEPTH = 120
    LOOP_UNROLL = 3000
    LOOP_FIX = 12
    loop_guard = False         # loops of more than LOOP_UNROLL rounds end the analysis

    def __init__(self, project, stubs=None):
        self.project = project
        self.st = State()
        self.mods = {}
        self.steps = 0
        self.depth = 0
        self.pending = []          # stack of lists [(state, excval)] for may-raise
        self.stubs = stubs or {}
        self.yield_hooks = {}
        self.call_log = set()      # analysed functions (qualified names)
        self.unmodelled = set()    # constructs treated as unknown
        self.callstack = []
        self.watch = None          # optional callback on attribute writes
        self.entered = {}
        from . import builtins_model
        self.bm = builtins_model.Model(self)
        self.benv = self.bm.table

    # ------------------------------------------------------------ utilities
    def note(self, why):
        self.st.imprecise.append(why)
        self.unmodelled.add(why)

    def top(self, why):
        self.note(why)
        return Top(why)

    def exc(self, name, *args):
        return self.st.alloc(HObj(BCls(name), {'args': tuple(args)}))

    def raise_(self, name, *args):
        raise PyRaise(self.exc(name, *args))

    def may_raise(self, name, *args):
        """Record a possible exception; normal flow continues."""
        if self.pending:
            s = self.st.copy()
            v = s.alloc(HObj(BCls(name), {'args': tuple(args)}))
            self.pending[-1].append((s, v))

    def may_raise_any(self, why):
        if self.pending:
            s = self.st.copy()
            self.pending[-1].append((s, Top(why)))

    def tick(self):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Budget('step budget exceeded')

    def new_list(self, items, sub='list'):
        return self.st.alloc(HList(items, sub))

    def new_dict(self, pairs=()):
        h = HDict()
        for k, v in pairs:
            h.d[vkey(k)] = (k, v)
        return self.st.alloc(h)

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        path = self.project.path(name)
        if path is None:
            return None
        parent = None
        if '.' in name:
            parent = self.module(name.rsplit('.', 1)[0])
            if name in self.mods:
                return self.mods[name]
        env = self.st.alloc(HEnv(None, {'__name__': name, '__file__': path}))
        m = ModV(name, env)
        self.mods[name] = m
        if parent is not None:
            self.st.w(parent.env).attrs[name.rsplit('.', 1)[1]] = m
        tree = self.project.tree(name)
        for n in ast.walk(tree):        # library models are in every state from the start
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for lib in ([n.module] if isinstance(n, ast.ImportFrom) else [a.name for a in n.names]):
                    if lib and self.project.path('%std:' + lib):
                        self.module('%std:' + lib)
        fr = Frame(env, m)
        fr.locals_ = None
        sv = self.pending
        self.pending = [[]]
        try:
            self.block(tree.body, fr)
        finally:
            self.pending = sv
        if self.st is None:
            raise Undecided('module %s does not complete' % name)
        return m

    def import_from(self, name):
        m = self.module(name)
        if m is None:
            return self.bm.ext_module(name)
        return m

    def lookup_module_attr(self, m, attr):
        if isinstance(m, ModV):
            env = self.st.get(m.env)
            if attr in env.attrs:
                return env.attrs[attr]
            sub = self.module(m.name + '.' + attr)
            if sub is not None:
                return sub
            return None
        return self.bm.ext_attr(m, attr)

    # ------------------------------------------------------------ names
    def lookup(self, name, fr):
        e = fr.env
        first = True
        while e is not None:
            o = self.st.get(e)
            if name in o.attrs and not (first and name in fr.globals_):
                v = o.attrs[name]
                return self.present(v, 'UnboundLocalError', name)
            if first and fr.locals_ is not None and name in fr.locals_ and name not in fr.globals_ and name not in fr.nonlocals:
                self.raise_('UnboundLocalError', name)
            first = False
            e = o.parent
        genv = self.st.get(fr.mod.env)
        if name in genv.attrs:
            return self.present(genv.attrs[name], 'NameError', name)
        if name in self.benv:
            return self.benv[name]
        if name in BUILTIN_EXC:
            return BCls(name)
        if hasattr(_pyb, name):
            return self.top('builtin %s' % name)
        self.raise_('NameError', name)

    def present(self, v, excname, name):
        if v is MISSING:
            self.raise_(excname, name)
        if isinstance(v, Choice) and any(x is MISSING for x in v.vals):
            self.may_raise(excname, name)
            return choice([x for x in v.vals if x is not MISSING])
        return v

    def assign_name(self, name, v, fr):
        if name in fr.globals_:
            self.st.w(fr.mod.env).attrs[name] = v
            return
        if name in fr.nonlocals:
            e = self.st.get(fr.env).parent
            while e is not None:
                o = self.st.get(e)
                if name in o.attrs:
                    self.st.w(e).attrs[name] = v
                    return
                e = o.parent
        self.st.w(fr.env).attrs[name] = v

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        """Execute statements from self.st; self.st is the normal out-state
        (None when unreachable); abrupt completions are returned."""
        flow = Flow()
        for s in stmts:
            if self.st is None:
                break
            f = self.stmt(s, fr)
            if f is not None:
                flow.merge(f)
        return flow

    def stmt(self, s, fr):
        self.tick()
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Undecided('statement %s' % type(s).__name__)
        return m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Assert(self, s, fr):
        t, f = self.cond(s.test, fr)
        if f is not None:
            self.st = f
            msg = [] if s.msg is None else [self.ev(s.msg, fr)]
            if t is None:
                self.raise_('AssertionError', *msg)
            self.may_raise('AssertionError', *msg)
        self.st = t

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                o = self.st.w(fr.env)
                o.attrs.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                k = self.ev_index(t.slice, fr)
                self.bm.delitem(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if isinstance(o, Ref) and self.st.get(o).kind == 'obj':
                    self.st.w(o).attrs.pop(t.attr, None)
                else:
                    raise Undecided('del attribute')

    def s_Import(self, s, fr):
        for a in s.names:
            if a.asname:
                self.assign_name(a.asname, self.import_from(a.name), fr)
            else:
                self.import_from(a.name)
                top = a.name.split('.')[0]
                self.assign_name(top, self.import_from(top), fr)

    def s_ImportFrom(self, s, fr):
        base = s.module or ''
        if s.level:
            pkg = fr.mod.name.split('.')
            if not self.project.is_package(fr.mod.name):
                pkg = pkg[:-1]
            pkg = pkg[:len(pkg) - (s.level - 1)] if s.level > 1 else pkg
            base = '.'.join(pkg + ([base] if base else []))
        m = self.import_from(base)
        if isinstance(m, Ext) and self.project.is_internal(base):
            self.raise_('ImportError', base)
        for a in s.names:
            if a.name == '*':
                if isinstance(m, ModV):
                    attrs = self.st.get(m.env).attrs
                    al = attrs.get('__all__')
                    names = None
                    if isinstance(al, Ref):
                        names = [x for x in self.st.get(al).items if isinstance(x, str)]
                    for k, v in list(attrs.items()):
                        if (names is not None and k in names) or (names is None and not k.startswith('_')):
                            self.assign_name(k, v, fr)
                else:
                    self.note('import * from external %s' % base)
                continue
            v = self.lookup_module_attr(m, a.name)
            if v is None:
                self.raise_('ImportError', '%s.%s' % (base, a.name))
            self.assign_name(a.asname or a.name, v, fr)

    def s_Global(self, s, fr):
        fr.globals_.update(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def s_FunctionDef(self, s, fr):
        v = self.make_func(s, fr)
        for d in reversed(s.decorator_list):
            dec = self.ev_decorator(d, fr, s.name)
            v = dec(v)
        self.assign_name(s.name, v, fr)

    def ev_decorator(self, d, fr, name):
        if isinstance(d, ast.Name) and d.id in ('property', 'staticmethod', 'classmethod'):
            if d.id == 'property':
                return lambda v: Prop(v)
            if d.id == 'staticmethod':
                return lambda v: StaticM(v)
            return lambda v: ClassM(v)
        if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter'):
            cur = self.ev(d.value, fr)
            if isinstance(cur, Prop):
                if d.attr == 'setter':
                    return lambda v: Prop(cur.fget, v)
                if d.attr == 'getter':
                    return lambda v: Prop(v, cur.fset)
                return lambda v: cur
        dv = self.ev(d, fr)
        return lambda v: self.call(dv, [v], {})

    def make_func(self, s, fr):
        a = s.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = {}
        for arg, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[arg.arg] = self.ev(d, fr)
        name = getattr(s, 'name', '<lambda>')
        env = fr.env
        owner = None
        if fr.cls is not None:
            # functions in a class body close over the scope outside the class
            env = self.st.get(fr.env).parent
            owner = fr.cls
            qual = fr.cls + '.' + name
        else:
            qual = (fr.fn.qual + '.' if fr.fn is not None else fr.mod.name + ':') + name
        if self.st.get(fr.env).parent is None and fr.fn is None and fr.cls is None:
            env = None      # module level: globals reached through mod
        f = Func(s, env, fr.mod, owner, defaults, kwd, qual)
        return f

    def s_ClassDef(self, s, fr):
        bases = []
        for b in s.bases:
            v = self.ev(b, fr)
            if isinstance(v, Cls):
                bases.append(v)
            elif isinstance(v, BCls):
                bases.append(v)
            else:
                if isinstance(v, Ext) and v.path.startswith('enum.'):
                    raise Undecided('enumeration class')
                bases.append(v)
                self.note('class base %s' % ast.unparse(b))
        qual = fr.mod.name + ':' + (s.name if fr.fn is None else fr.fn.qual.split(':')[-1] + '.' + s.name)
        ns = self.st.alloc(HEnv(fr.env if fr.fn is not None else None, {}))
        cfr = Frame(ns, fr.mod, fr.fn, cls=qual)
        anns = [n.target.id for n in s.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)]
        if anns:
            self.st.w(ns).attrs['%ann'] = tuple(anns)
        self.block(s.body, cfr)
        cls = Cls(qual, s.name, fr.mod, s, bases, ns)
        v = cls
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, fr), [v], {})
        self.assign_name(s.name, v, fr)

    def s_Return(self, s, fr):
        v = self.ev(s.value, fr) if s.value is not None else None
        f = Flow()
        f.ret = (self.st, v)
        self.st = None
        return f

    def s_Break(self, s, fr):
        f = Flow()
        f.brk = self.st
        self.st = None
        return f

    def s_Continue(self, s, fr):
        f = Flow()
        f.cont = self.st
        self.st = None
        return f

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            r = self.ev(s.value, fr)
            self.assign_name(t.id, self.augop(s.op, cur, r), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr_(o, t.attr)
            r = self.ev(s.value, fr)
            self.setattr_(o, t.attr, self.augop(s.op, cur, r))
        else:
            o = self.ev(t.value, fr)
            k = self.ev_index(t.slice, fr)
            cur = self.bm.getitem(o, k)
            r = self.ev(s.value, fr)
            self.bm.setitem(o, k, self.augop(s.op, cur, r))

    def augop(self, op, cur, r):
        if isinstance(cur, Ref) and isinstance(op, ast.Add):
            o = self.st.get(cur)
            if o.kind == 'list':
                self.bm.extend_list(cur, r)
                return cur
            if o.kind == 'obj' and isinstance(o.cls, Cls):
                m = self.class_attr(o.cls, '__iadd__')
                if m is not None:
                    return self.call(Bound(m, cur), [r], {})
        return self.binop(op, cur, r)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            self.setattr_(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_index(t.slice, fr)
            self.bm.setitem(o, k, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Undecided('assignment target')

    def unpack(self, t, v, fr):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if isinstance(v, Choice):
            rows = []
            for x in v.vals:
                if x is None:
                    self.may_raise('TypeError', 'cannot unpack')
                    continue
                its = self.bm.items_of(x)
                if its is not None and not star and len(its) != n and not any(isinstance(i, Opt) for i in its):
                    self.may_raise('ValueError', 'unpack length')
                    continue
                rows.append(its)
            if not rows:
                self.raise_('ValueError', 'unpack')
            if any(r is None or any(isinstance(i, Opt) for i in r) for r in rows) or star:
                for e in t.elts:
                    self.assign(e, self.top('unpack of unknown'), fr)
                return
            for i, e in enumerate(t.elts):
                self.assign(e, choice([r[i] for r in rows]), fr)
            return
        if isinstance(v, Top):
            for e in t.elts:
                self.assign(e, Top(v.why), fr)
            return
        its = self.bm.items_of(v)
        if its is None or any(isinstance(i, Opt) for i in its):
            if its is None and not isinstance(v, (Ext, Top)) and (v is None or is_num(v)):
                self.raise_('TypeError', 'cannot unpack %s' % show(v))
            for e in t.elts:
                self.assign(e, self.top('unpack of unknown'), fr)
            return
        if star:
            i = star[0]
            after = n - i - 1
            if len(its) < n - 1:
                self.raise_('ValueError', 'unpack')
            for e, x in zip(t.elts[:i], its[:i]):
                self.assign(e, x, fr)
            self.assign(t.elts[i].value, self.new_list(its[i:len(its) - after]), fr)
            for e, x in zip(t.elts[i + 1:], its[len(its) - after:]):
                self.assign(e, x, fr)
            return
        if len(its) != n:
            self.raise_('ValueError', 'unpack length %d != %d' % (len(its), n))
        for e, x in zip(t.elts, its):
            self.assign(e, x, fr)

    # --- branching
    def cond(self, e, fr):
        """(state if true, state if false) for a condition, refined."""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            t, f = self.cond(e.values[0], fr)
            for nx in e.values[1:]:
                go = t if isand else f
                if go is None:
                    break
                self.st = go
                t2, f2 = self.cond(nx, fr)
                if isand:
                    t, f = t2, join(f, f2)
                else:
                    t, f = join(t, t2), f2
            return t, f
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, fr)
            return f, t
        v = self.ev(e, fr)
        return self.branch(v, e, fr)

    def branch(self, v, e, fr):
        t = self.truth(v)
        if t is True:
            return self.st, None
        if t is False:
            return None, self.st
        s0 = self.st
        s1 = s0.copy()
        out = []
        for s, want in ((s0, True), (s1, False)):
            self.st = s
            if isinstance(v, BTerm):
                self.assume(v, want)
            elif isinstance(v, Poly):
                self.assume(BTerm(self.eqkey(v), True), want)
            ok = True
            if e is not None:
                ok = self.refine(e, want, fr)
            out.append(s if ok else None)
        self.st = s0
        return out[0], out[1]

    def assume(self, b, want):
        val = want != b.neg
        a = self.st.assume
        a[b.k] = val
        if b.k.startswith('neg:') and val:
            p, q = b.k[4:].split('||')
            a['neg:%s||%s' % (q, p)] = False
            a['eq:' + p] = False
            a['eq:' + q] = False
        if b.k.startswith('eq:') and val:
            pass

    def truth(self, v):
        if isinstance(v, BTerm):
            r = self.st.assume.get(v.k)
            if r is None:
                return None
            return r != v.neg
        if isinstance(v, Choice):
            rs = set(self.truth(x) for x in v.vals)
            if len(rs) == 1:
                return rs.pop()
            return None
        if isinstance(v, Top) or v is MISSING:
            return None
        if isinstance(v, Poly):
            s = poly_sign(v)
            if s in ('+', '-'):
                return True
            if s == '0':
                return False
            k = self.eqkey(v)
            r = self.st.assume.get(k)
            return None if r is None else not r
        if isinstance(v, SStr):
            if v.minlen() > 0:
                return True
            k = 'nonempty:' + vkey(v)
            return self.st.assume.get(k)
        if isinstance(v, Ref):
            o = self.st.get(v)
            if o.kind == 'list':
                if o.sub in ('iter', 'gen'):
                    return True
                if not o.items:
                    return False
                if any(not isinstance(i, Opt) for i in o.items):
                    return True
                return None
            if o.kind == 'dict':
                if any(not (val is MISSING or isinstance(val, Choice) and MISSING in val.vals) for _, val in o.d.values()):
                    return True
                return False if (not o.d and o.open is None) else None
            if o.kind == 'set':
                if not o.d:
                    return False
                return True if any(not isinstance(i, Opt) for i in o.d.values()) else None
            if o.kind == 'obj' and isinstance(o.cls, Cls):
                for meth in ('__bool__', '__nonzero__', '__len__'):
                    if meth == '__nonzero__':
                        continue
                    m = self.class_attr(o.cls, meth)
                    if m is not None:
                        r = self.call(Bound(m, v), [], {})
                        return self.truth(r)
                return True
            return True
        if is_const(v):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, (Func, Bound, Builtin, Cls, BCls, ModV, Regex, MatchV)):
            return True
        if isinstance(v, Ext):
            return True
        return None

    def eqkey(self, p):
        p = Poly.of(p)
        lead = p.terms[sorted(p.terms)[0]]
        q = Poly.of(p.div(lead))
        k = 'eq:' + vkey(q)
        if k not in CONDS:
            CONDS[k] = ('eq', q)
        return k

    def refine(self, e, want, fr):
        """Filter the joined values of a name / attribute by a test's outcome.
        Returns False when the outcome is impossible."""
        tgt, pred = None, None
        if isinstance(e, (ast.Name, ast.Attribute)):
            tgt = e
            pred = lambda x: (self.truth(x) is not (not want))
        elif isinstance(e, ast.Compare) and len(e.ops) == 1:
            op = e.ops[0]
            if isinstance(e.left, (ast.Name, ast.Attribute)):
                tgt = e.left
                try:
                    rhs = self.ev(e.comparators[0], fr)
                except (PyRaise, Dead):
                    return True
                pred = lambda x: (self.truth(self.compare(op, x, rhs)) is not (not want))
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('isinstance', 'hasattr', 'callable', 'len') and e.args \
                and isinstance(e.args[0], (ast.Name, ast.Attribute)):
            tgt = e.args[0]
            try:
                rest = [self.ev(a, fr) for a in e.args[1:]]
                fn = self.lookup(e.func.id, fr)
            except (PyRaise, Dead):
                return True
            pred = lambda x: (self.truth(self.call(fn, [x] + rest, {})) is not (not want))
        if tgt is None:
            return True
        cur, store = self.peek(tgt, fr)
        if not isinstance(cur, Choice):
            return True
        keep = []
        for x in cur.vals:
            if x is MISSING:
                continue
            self.pending.append([])
            try:
                ok = pred(x)
            except (PyRaise, Dead, Undecided):
                ok = True
            finally:
                self.pending.pop()
            if ok:
                keep.append(x)
        if not keep:
            return False
        if len(keep) < len(cur.vals):
            store(choice(keep))
        return True

    def peek(self, e, fr):
        """Stored (not computed) value behind a name/attribute expression."""
        if isinstance(e, ast.Name):
            env = fr.env
            o = self.st.get(env)
            if e.id in o.attrs:
                return o.attrs[e.id], lambda v: self.st.w(env).attrs.__setitem__(e.id, v)
            return None, None
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            try:
                base = self.lookup(e.value.id, fr)
            except PyRaise:
                return None, None
            if isinstance(base, Ref):
                o = self.st.get(base)
                if o.kind == 'obj':
                    name = e.attr
                    if isinstance(o.cls, Cls):
                        ca = self.class_attr(o.cls, name)
                        if isinstance(ca, Prop):
                            f = ca.fget
                            body = [x for x in f.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))] if isinstance(f, Func) else []
                            if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Attribute) \
                                    and isinstance(body[0].value.value, ast.Name) and body[0].value.value.id == 'self':
                                name = body[0].value.attr
                            else:
                                return None, None
                    if name in o.attrs:
                        return o.attrs[name], lambda v: self.st.w(base).attrs.__setitem__(name, v)
        return None, None

    def s_If(self, s, fr):
        t, f = self.cond(s.test, fr)
        flow = Flow()
        outs = []
        for st, body in ((t, s.body), (f, s.orelse)):
            if st is None:
                continue
            self.st = st
            try:
                flow.merge(self.block(body, fr))
                outs.append(self.st)
            except PyRaise as ex:
                if t is None or f is None:
                    raise
                self.defer(ex)
        self.st = joins(outs)
        if self.st is None and flow.ret is None and flow.brk is None and flow.cont is None:
            # every branch raised
            self.reraise_deferred()
        return flow

    def defer(self, ex):
        """A branch raised: record as possible exception."""
        if not self.pending:
            self.pending.append([])
        self.pending[-1].append((self.st.copy() if self.st is not None else State(), ex.val))

    def reraise_deferred(self):
        p = self.pending[-1] if self.pending else []
        if not p:
            raise Dead()
        st, v = p.pop()
        self.st = st
        raise PyRaise(v)

    def s_While(self, s, fr):
        flow = Flow()
        exits = []
        n = 0
        fix = 0
        prev = None
        while True:
            self.tick()
            if self.st is None:
                break
            try:
                t, f = self.cond(s.test, fr)
            except PyRaise as ex:
                if fix:
                    self.defer(ex)
                    break
                raise
            if f is not None:
                exits.append((f, True))
            if t is None:
                break
            definite = f is None
            self.st = t
            if not definite or fix:
                fix += 1
                if fix > self.LOOP_FIX:
                    self.widen_loop(s, fr)
                    exits.append((self.st, True))
                    break
            n += 1
            if n > self.LOOP_UNROLL:
                if self.loop_guard:
                    raise Budget('loop at line %d: more than %d rounds' % (s.lineno, self.LOOP_UNROLL))
                self.widen_loop(s, fr)
                exits.append((self.st, True))
                break
            try:
                bf = self.block(s.body, fr)
            except PyRaise as ex:
                if fix or exits:
                    self.defer(ex)
                    break
                raise
            if bf.ret is not None:
                flow.add_ret(*bf.ret)
            if bf.brk is not None:
                exits.append((bf.brk, False))
            self.st = join(self.st, bf.cont)
            if fix and self.st is not None:
                k = self.state_sig(self.st)
                if k == prev:
                    break
                prev = k
        done = joins([e for e, normal in exits if normal])
        self.st = done
        if s.orelse and done is not None:
            flow.merge(self.block(s.orelse, fr))
        self.st = join(self.st, joins([e for e, normal in exits if not normal]))
        return flow

    def state_sig(self, st):
        return tuple(sorted((a, tuple(sorted((k, vkey(v)) for k, v in o.attrs.items())) if o.kind in ('obj', 'env')
                             else tuple(vkey(i) for i in o.items) if o.kind == 'list' else tuple(sorted(o.d))) for a, o in st.heap.items()
                            if a in st.owned))

    def widen_loop(self, s, fr):
        """Give up precision: everything the loop body may assign becomes unknown."""
        self.note('loop widened at %s:%s' % (fr.mod.name, s.lineno))
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.assign_name(n.id, Top('widened'), fr)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                try:
                    o = self.ev(n.value, fr)
                    self.setattr_(o, n.attr, Top('widened'))
                except (PyRaise, Dead):
                    pass

    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        return self.loop_over(it, s.target, s.body, s.orelse, fr, s)

    def loop_over(self, it, target, body, orelse, fr, node):
        flow = Flow()
        live = self.live_items(it)
        items = live if live is not None else self.bm.iterate(it, True)
        brks = []
        if items is None:
            # unknown iterable: zero or more unknown elements
            items = [Opt(self.top('iteration over %s' % show(it)[:60]), True)]
        for item in items:
            if self.st is None:
                break
            if item is ENDLESS:
                raise Endless('end of an endless iterator')
            if isinstance(item, Opt):
                rounds = self.LOOP_FIX if item.many else 1
                prev = None
                for _ in range(rounds):
                    skip = self.st.copy()
                    self.assign(target, item.v, fr)
                    try:
                        bf = self.block(body, fr)
                    except PyRaise as ex:
                        self.defer(ex)
                        self.st = skip
                        break
                    if bf.ret is not None:
                        flow.add_ret(*bf.ret)
                    if bf.brk is not None:
                        brks.append(bf.brk)
                    self.st = join(skip, join(self.st, bf.cont))
                    if item.many:
                        k = self.state_sig(self.st)
                        if k == prev:
                            break
                        prev = k
                else:
                    if item.many:
                        self.widen_loop(node, fr)
                continue
            self.assign(target, item, fr)
            try:
                bf = self.block(body, fr)
            except PyRaise as ex:
                if brks or flow.ret is not None:
                    self.defer(ex)
                    self.st = None
                    break
                raise
            if bf.ret is not None:
                flow.add_ret(*bf.ret)
            if bf.brk is not None:
                brks.append(bf.brk)
            self.st = join(self.st, bf.cont)
        if orelse and self.st is not None:
            flow.merge(self.block(orelse, fr))
        self.st = join(self.st, joins(brks))
        return flow

    def live_items(self, it):
        """The items of a list or iterator as the loop body leaves them."""
        if not isinstance(it, Ref) or it.addr not in self.st.heap:
            return None
        h = self.st.get(it)
        if h.kind != 'list' or h.sub not in ('list', 'gen', 'iter') or any(isinstance(i, Opt) for i in h.items):
            return None
        return self._live(it, h.sub == 'list', list(h.items))

    def _live(self, it, isl, first):
        n = 0
        while self.st is not None:
            cur = self.st.get(it).items
            if any(isinstance(i, Opt) for i in cur):
                # joined after a round: go on with what the loop started from
                if not isl:
                    self.st.w(it).items = []
                for x in first[n:]:
                    yield x
                return
            if isl:
                if n >= len(cur):
                    return
                x = cur[n]
                if n > 5000:
                    raise Endless('list grows in its loop')
            else:
                if not cur:
                    return
                x = cur[0]
                if x is ENDLESS:
                    yield x
                    return
                self.st.w(it).items = cur[1:]
            n += 1
            yield x

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = self.st.get(fr.env).attrs.get('%exc')
            if cur is None:
                self.raise_('RuntimeError', 'no active exception')
            raise PyRaise(cur)
        v = self.ev(s.exc, fr)
        if isinstance(v, (Cls, BCls)):
            v = self.call(v, [], {})
        raise PyRaise(v)

    def exc_matches(self, v, typ):
        """True / False / None: does exception value v match handler type."""
        if isinstance(typ, tuple):
            rs = [self.exc_matches(v, t) for t in typ]
            return True if True in rs else None if None in rs else False
        if isinstance(v, Top) or isinstance(v, Choice):
            if isinstance(v, Choice):
                rs = set(self.exc_matches(x, typ) for x in v.vals)
                return rs.pop() if len(rs) == 1 else None
            if isinstance(typ, BCls) and typ.name in ('Exception', 'BaseException'):
                return True
            return None
        if isinstance(v, Ref):
            c = self.st.get(v).cls if v.addr in self.st.heap else None
            if c is None:
                return None
            return self.subclass(c, typ)
        return None

    def subclass(self, c, typ):
        if isinstance(c, Cls):
            for k in c.mro:
                if isinstance(k, Cls) and isinstance(typ, Cls) and k.qual == typ.qual:
                    return True
                if isinstance(k, BCls) and isinstance(typ, BCls):
                    r = self.subclass(k, typ)
                    if r:
                        return True
                if isinstance(k, (Top, Ext)):
                    return None
            return isinstance(typ, BCls) and typ.name == 'object'
        if isinstance(c, BCls) and isinstance(typ, BCls):
            if c.name == typ.name or typ.name == 'object':
                return True
            a, b = BUILTIN_EXC.get(c.name), BUILTIN_EXC.get(typ.name)
            if a is not None and b is not None:
                return issubclass(a, b)
            return (c.name, typ.name) in (('bool', 'int'), ('OrderedDict', 'dict'), ('defaultdict', 'dict'))
        if isinstance(c, BCls) and isinstance(typ, Cls):
            return False
        return None

    def s_Try(self, s, fr):
        flow = Flow()
        self.pending.append([])
        raised = []
        try:
            bf = self.block(s.body, fr)
            flow.merge(bf)
        except PyRaise as ex:
            raised.append((self.st, ex.val))
            self.st = None
        except Dead:
            self.st = None
        raised = self.pending.pop() + raised
        if s.orelse and self.st is not None:
            flow.merge(self.block(s.orelse, fr))
        outs = [self.st]
        escaped = []
        # merge raised states by exception class
        groups = {}
        for st, v in raised:
            if isinstance(v, Ref) and v.addr in st.heap:
                k = vkey(st.heap[v.addr].cls)
            else:
                k = 'top'
            groups.setdefault(k, []).append((st, v))
        for k, lst in groups.items():
            st = joins([x for x, _ in lst])
            v = choice([y for _, y in lst])
            handled = False
            for h in s.handlers:
                self.st = st.copy()
                if h.type is None:
                    m = True
                else:
                    typ = self.ev(h.type, fr)
                    m = self.exc_matches(v, typ)
                if m is False:
                    continue
                if m is None:
                    pass
                else:
                    handled = True
                if h.name:
                    self.assign_name(h.name, v, fr)
                self.st.w(fr.env).attrs['%exc'] = v
                try:
                    hf = self.block(h.body, fr)
                    flow.merge(hf)
                    outs.append(self.st)
                except PyRaise as ex:
                    escaped.append((self.st, ex.val))
                except Dead:
                    pass
                if handled:
                    break
            if not handled:
                escaped.append((st, v))
        self.st = joins(outs)
        if s.finalbody:
            keep = self.st
            if flow.ret is not None:
                self.st, v = flow.ret
                f2 = self.block(s.finalbody, fr)
                flow.ret = (self.st, v) if self.st is not None else None
            for nm in ('brk', 'cont'):
                if getattr(flow, nm) is not None:
                    self.st = getattr(flow, nm)
                    self.block(s.finalbody, fr)
                    setattr(flow, nm, self.st)
            ne = []
            for st, v in escaped:
                self.st = st
                self.block(s.finalbody, fr)
                ne.append((self.st, v))
            escaped = ne
            self.st = keep
            if self.st is not None:
                flow.merge(self.block(s.finalbody, fr))
        if escaped:
            if self.st is None and flow.ret is None and flow.brk is None and flow.cont is None:
                for st, v in escaped[:-1]:
                    if self.pending:
                        self.pending[-1].append((st, v))
                self.st, v = escaped[-1]
                raise PyRaise(v)
            if self.pending:
                self.pending[-1].extend(escaped)
        return flow

    def s_With(self, s, fr):
        if len(s.items) > 1:
            inner = ast.With(items=s.items[1:], body=s.body)
            return self.s_With(ast.copy_location(ast.With(items=s.items[:1], body=[ast.copy_location(inner, s)]), s), fr)
        entered = []
        for it in s.items:
            v = self.ev(it.context_expr, fr)
            r = v
            if isinstance(v, CtxV):
                return self.with_generator(v, it, s, fr)
            if isinstance(v, Ref):
                o = self.st.get(v)
                if o.kind == 'obj' and isinstance(o.cls, Cls):
                    m = self.class_attr(o.cls, '__enter__')
                    if m is not None:
                        r = self.call(Bound(m, v), [], {})
            elif isinstance(v, Ext):
                pass
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, fr)
            entered.append(v)

        def leave(exc=None):
            for v in reversed(entered):
                if isinstance(v, Ref) and v.addr in self.st.heap:
                    o = self.st.get(v)
                    if o.kind == 'obj' and isinstance(o.cls, BCls) and o.cls.name == 'file':
                        self.st.w(v).attrs['closed'] = True
                    elif o.kind == 'obj' and isinstance(o.cls, Cls):
                        m = self.class_attr(o.cls, '__exit__')
                        if m is not None:
                            if exc is None:
                                self.call(Bound(m, v), [None, None, None], {})
                            else:
                                cls = self.st.get(exc).cls if isinstance(exc, Ref) and self.st.get(exc).kind == 'obj' else None
                                r = self.call(Bound(m, v), [cls, exc, Top('traceback')], {})
                                t = self.truth(r)
                                if t is None:
                                    raise Undecided('__exit__ result')
                                return t
        swallowed = []
        self.pending.append([])
        def leave_raised(p):
            sv = self.st
            for st, v in p:
                self.st = st
                if leave(v):
                    swallowed.append(self.st)
                elif self.pending:
                    self.pending[-1].append((self.st, v))
            self.st = sv
        try:
            flow = self.block(s.body, fr)
        except PyRaise as ex:
            p = self.pending.pop()
            done = leave(ex.val)
            leave_raised(p)
            if done:
                swallowed.append(self.st)
            if swallowed:
                self.st = joins(swallowed)
                if done:
                    return Flow()
                raise Undecided('exception suppressed on some paths')
            raise
        p = self.pending.pop()
        sv = self.st
        leave_raised(p)
        if flow.ret is not None:
            self.st, v = flow.ret
            leave()
            flow.ret = (self.st, v)
        for nm in ('brk', 'cont'):
            if getattr(flow, nm) is not None:
                self.st = getattr(flow, nm)
                leave()
                setattr(flow, nm, self.st)
        self.st = sv
        if self.st is not None:
            leave()
        if swallowed:
            self.st = joins(swallowed + ([self.st] if self.st is not None else []))
        return flow

    def with_generator(self, cm, item, s, fr):
        """`with` over a @contextmanager function: the body runs where the function yields."""
        box = []

        def at_yield(v):
            if box:
                raise Undecided('context manager yields twice')
            box.append(None)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, fr)
            flow = self.block(s.body, fr)
            ends = [n for n in ('ret', 'brk', 'cont') if getattr(flow, n) is not None]
            if ends:
                if self.st is not None or len(ends) > 1:
                    raise Undecided('with body ends in several ways')
                self.st = flow.ret[0] if ends == ['ret'] else getattr(flow, ends[0])
            box[0] = (flow, ends)
        env_hook = self.yield_hooks
        self.yield_hooks = dict(env_hook)
        try:
            self.call_func(cm.fn, cm.args, cm.kw, at_yield)
        finally:
            self.yield_hooks = env_hook
        if not box:
            self.raise_('RuntimeError', "generator didn't yield")
        if box[0] is None:      # the function swallowed an exception of the body
            return Flow()
        flow, ends = box[0]
        if ends == ['ret']:
            flow.ret = (self.st, flow.ret[1])
            self.st = None
        elif ends:
            setattr(flow, ends[0], self.st)
            self.st = None
        return flow

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Budget('step budget exceeded')
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Undecided('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        if e.value is Ellipsis:
            return self.top('ellipsis')
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Tuple(self, e, fr):
        out = self.ev_seq(e.elts, fr)
        if any(isinstance(x, Opt) for x in out):
            return self.new_list(out, 'tuple')
        return tuple(out)

    def ev_seq(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                its = self.bm.iterate(self.ev(x.value, fr))
                if its is None:
                    its = [Opt(self.top('starred unknown'), True)]
                out.extend(its)
            else:
                out.append(self.ev(x, fr))
        return out

    def e_List(self, e, fr):
        return self.new_list(self.ev_seq(e.elts, fr))

    def e_Set(self, e, fr):
        h = HSet()
        for x in self.ev_seq(e.elts, fr):
            h.d[vkey(x)] = x
        return self.st.alloc(h)

    def e_Dict(self, e, fr):
        h = HDict()
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, fr)
            if k is None:
                if isinstance(vv, Ref) and self.st.get(vv).kind == 'dict':
                    h.d.update(self.st.get(vv).d)
                else:
                    h.open = self.top('dict unpack')
                continue
            kk = self.ev(k, fr)
            h.d[vkey(kk)] = (kk, vv)
        return self.st.alloc(h)

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr)

    def e_IfExp(self, e, fr):
        t, f = self.cond(e.test, fr)
        outs, vals = [], []
        for st, x in ((t, e.body), (f, e.orelse)):
            if st is None:
                continue
            self.st = st
            try:
                vals.append(self.ev(x, fr))
                outs.append(self.st)
            except PyRaise as ex:
                if t is None or f is None:
                    raise
                self.defer(ex)
        if not outs:
            self.reraise_deferred()
        self.st, v = joinv(list(zip(outs, vals)))
        return v

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        vals, outs = [], []
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                vals.append(v)
                outs.append(self.st)
                break
            t, f = self.branch(v, x, fr)
            stop, go = (f, t) if isand else (t, f)
            if stop is not None:
                # value restricted to the stopping truth value
                vs = [a for a in alts(v) if self.truth(a) is not isand]
                vals.append(choice(vs) if vs else v)
                outs.append(stop)
            if go is None:
                break
            self.st = go
        self.st, v = joinv(list(zip(outs, vals)))
        return v

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        return self.unop(e.op, v)

    def unop(self, op, v):
        if isinstance(v, Choice):
            return choice([self.unop(op, x) for x in v.vals])
        if isinstance(op, ast.Not):
            t = self.truth(v)
            if t is not None:
                return not t
            if isinstance(v, BTerm):
                return v.flip()
            if isinstance(v, Poly):
                return BTerm(self.eqkey(v))
            return Choice((True, False))
        if isinstance(v, Top):
            return v
        if isinstance(op, ast.USub):
            if is_num(v):
                return -v
        if isinstance(op, ast.UAdd) and is_num(v):
            return v
        if isinstance(op, ast.Invert) and isinstance(v, int):
            return ~v
        if isinstance(v, Ext):
            return Ext('-' + v.path)
        if isinstance(v, BTerm):
            return choice([self.unop(op, True), self.unop(op, False)])
        if isinstance(v, Ref) and self.st.get(v).kind == 'obj':
            m = self.find_attr(v, {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[type(op).__name__])
            if m is not MISSING:
                return self.call(m, [], {})
        self.raise_('TypeError', 'bad operand for unary')

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        return self.bm.binop(type(op).__name__, a, b)

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = None
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(c, fr)
            r = self.compare(op, left, right)
            if i == 0:
                res = r
            else:
                res = self.bool_and(res, r)
            if self.truth(res) is False:
                return False
            left = right
        return res

    def bool_and(self, a, b):
        ta, tb = self.truth(a), self.truth(b)
        if ta is False or tb is False:
            return False
        if ta is True:
            return b
        if tb is True:
            return a
        return BTerm('and(%s,%s)' % (vkey(a), vkey(b)))

    def compare(self, op, a, b):
        return self.bm.compare(type(op).__name__, a, b)

    def e_Attribute(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getattr_(o, e.attr)

    def ev_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.ev(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.ev(s, fr)

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        k = self.ev_index(e.slice, fr)
        return self.bm.getitem(o, k)

    def e_Starred(self, e, fr):
        raise Undecided('starred expression')

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                spec = ''
                if v.format_spec is not None:
                    sp = self.ev(v.format_spec, fr)
                    spec = sp if isinstance(sp, str) else None
                if v.conversion == 114:
                    x = self.bm.b_repr([x], {})
                elif v.conversion == 115:
                    x = self.bm.to_str(x)
                parts.append(self.bm.format_value(x, spec))
        return self.bm.concat(parts)

    def e_FormattedValue(self, e, fr):
        return self.bm.format_value(self.ev(e.value, fr), '')

    def e_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else None
        hook = self.yield_hooks.get(fr.env.addr)
        if hook is not None:
            hook(v)
            return None
        lst = self.st.get(fr.env).attrs.get('%yields')
        self.st.w(lst).items.append(v)
        if len(self.st.get(lst).items) > 1500:
            raise Endless('unbounded generator')
        return None

    def e_YieldFrom(self, e, fr):
        its = self.bm.iterate(self.ev(e.value, fr), True)
        lst = self.st.get(fr.env).attrs.get('%yields')
        self.st.w(lst).items.extend(its if its is not None else [Opt(self.top('yield from'), True)])
        if its and its[-1] is ENDLESS:
            raise Endless('end of an endless iterator')
        return None

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    # --- comprehensions
    def comp(self, gens, fr, emit):
        env = self.st.alloc(HEnv(fr.env if fr.env is not None else None, {}))
        cfr = Frame(env, fr.mod, fr.fn, fr.self_)
        if self.st.get(fr.env).parent is None and fr.fn is None and fr.cls is None:
            pass
        cfr.globals_ = set()
        self._comp(gens, 0, cfr, emit, False, fr)

    def _comp(self, gens, i, cfr, emit, opt, outer):
        if i == len(gens):
            emit(cfr, opt)
            return
        g = gens[i]
        it = self.ev(g.iter, outer if i == 0 else cfr)
        items = self.bm.iterate(it)
        if items is None:
            items = [Opt(self.top('comprehension over unknown'), True)]
        for item in items:
            o = opt
            if isinstance(item, Opt):
                o = 'many' if item.many else (opt or True)
                item = item.v
            self.assign(g.target, item, cfr)
            ok = True
            for c in g.ifs:
                t, f = self.cond(c, cfr)
                if t is None:
                    self.st = f
                    ok = False
                    break
                if f is not None:
                    o = o or True
                self.st = t if f is None else t
                # element may be absent; effects of the test are kept
            if ok:
                self._comp(gens, i + 1, cfr, emit, o, outer)

    def e_ListComp(self, e, fr, sub='list'):
        lst = self.new_list([], sub)

        def emit(cfr, opt):
            v = self.ev(e.elt, cfr)
            self.st.w(lst).items.append(Opt(v, opt == 'many') if opt else v)
        self.comp(e.generators, fr, emit)
        return lst

    def e_GeneratorExp(self, e, fr):
        return self.e_ListComp(e, fr, 'gen')

    def e_SetComp(self, e, fr):
        h = self.st.alloc(HSet())

        def emit(cfr, opt):
            v = self.ev(e.elt, cfr)
            d = self.st.w(h).d
            k = vkey(v)
            if not (k in d and not isinstance(d[k], Opt)):
                d[k] = Opt(v) if opt else v
        self.comp(e.generators, fr, emit)
        return h

    def e_DictComp(self, e, fr):
        h = self.st.alloc(HDict())

        def emit(cfr, opt):
            k = self.ev(e.key, cfr)
            v = self.ev(e.value, cfr)
            self.st.w(h).d[vkey(k)] = (k, choice([v, MISSING]) if opt else v)
        self.comp(e.generators, fr, emit)
        return h

    # ------------------------------------------------------------ calls
    def e_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            return self.ev_super(e, fr)
        if isinstance(e.func, ast.Name) and e.func.id in ('locals', 'globals', 'vars') and not e.args:
            if e.func.id == 'globals':
                return self.new_dict([(k, v) for k, v in self.st.get(fr.mod.env).attrs.items()])
            return self.new_dict([(k, v) for k, v in self.st.get(fr.env).attrs.items() if not k.startswith('%')])
        fn = self.ev(e.func, fr)
        if e.args and not e.keywords and isinstance(e.args[0], ast.GeneratorExp) and isinstance(fn, Builtin) \
                and fn.name in ('any', 'all', 'next') and fn is self.benv.get(fn.name):
            r = self.first_of(fn.name, e, fr)
            if r is not MISSING:
                return r
        args = self.ev_seq(e.args, fr)
        kw = {}
        star_kw_unknown = False
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if isinstance(v, Ref) and self.st.get(v).kind == 'dict':
                    h = self.st.get(v)
                    for kk, vv in h.d.values():
                        if isinstance(kk, str):
                            kw[kk] = self.present(vv, 'KeyError', kk)
                    if h.open is not None:
                        star_kw_unknown = True
                else:
                    star_kw_unknown = True
            else:
                kw[k.arg] = v
        if any(isinstance(a, Opt) for a in args) or star_kw_unknown:
            self.note('call with unknown argument list')
            if isinstance(fn, Ext):
                args = [a.v if isinstance(a, Opt) else a for a in args]
            elif isinstance(fn, Builtin):
                return self.top('builtin %s on unknown argument list' % fn.name)
            else:
                return self.escape(fn, args, kw)
        return self.call(fn, args, kw, e, fr)

    def escape(self, fn, args, kw):
        return self.top('call of unknown %s' % show(fn)[:60])

    def first_of(self, name, e, fr):
        """any, all or next over a generator expression: the elements up to the one that decides.
        MISSING when an element is not determined (the state is as before)."""
        before, npend = self.st.copy(), len(self.pending[-1]) if self.pending else 0
        found = []

        class Found(Exception):
            pass

        def emit(cfr, opt):
            if opt:
                raise KeyError
            v = self.ev(e.args[0].elt, cfr)
            if name != 'next':
                t = self.truth(v)
                if t is None:
                    raise KeyError
                if t != (name == 'any'):
                    return
                v = t
            found.append(v)
            raise Found()
        try:
            self.comp(e.args[0].generators, fr, emit)
        except Found:
            if len(e.args) > 1:
                self.ev(e.args[1], fr)
            return found[0]
        except KeyError:
            self.st = before
            if self.pending:
                del self.pending[-1][npend:]
            return MISSING
        if name == 'next':
            if len(e.args) > 1:
                return self.ev(e.args[1], fr)
            self.raise_('StopIteration')
        return name == 'all'

    def ev_super(self, e, fr):
        if e.args:
            c = self.ev(e.args[0], fr)
            s = self.ev(e.args[1], fr)
        else:
            c = None
            f = fr
            s = fr.self_
            c = self.class_by_qual(fr.fn.owner, fr) if fr.fn is not None and fr.fn.owner else None
            if c is None and fr.fn is not None and fr.fn.owner:
                k = self.st.get(s).cls if isinstance(s, Ref) and self.st.get(s).kind == 'obj' else s
                for x in getattr(k, 'mro', ()):
                    if isinstance(x, Cls) and x.qual == fr.fn.owner:
                        c = x
        if isinstance(c, Choice):
            raise Undecided('super of joined class')
        if c is None:
            raise Undecided('super of an unknown class')
        return SuperV(c, s)

    def class_by_qual(self, qual, fr):
        mod, name = qual.split(':')
        m = self.mods[mod]
        return self.st.get(m.env).attrs.get(name)

    def call(self, fn, args, kw, node=None, fr=None):
        self.tick()
        if isinstance(fn, Choice):
            return self.fork_over(fn.vals, lambda f: self.call(f, args, kw, node, fr))
        if isinstance(fn, Bound):
            return self.call(fn.fn, [fn.self_] + list(args), kw, node, fr)
        if isinstance(fn, Builtin):
            return fn.fn(args, kw)
        if isinstance(fn, CtxV):
            return CtxV(fn.fn, list(args), dict(kw))
        if isinstance(fn, Func):
            return self.call_func(fn, args, kw)
        if isinstance(fn, Cls):
            return self.instantiate(fn, args, kw)
        if isinstance(fn, BCls):
            return self.bm.construct(fn, args, kw)
        if isinstance(fn, StaticM) or isinstance(fn, ClassM):
            return self.call(fn.fn, args, kw)
        if isinstance(fn, Partial):
            k = dict(fn.kw)
            k.update(kw)
            return self.call(fn.fn, list(fn.args) + list(args), k)
        if isinstance(fn, Ref):
            o = self.st.get(fn)
            if o.kind == 'obj' and isinstance(o.cls, Cls):
                m = self.class_attr(o.cls, '__call__')
                if m is not None:
                    return self.call(Bound(m, fn), args, kw)
            self.raise_('TypeError', 'object is not callable')
        if isinstance(fn, Ext):
            return self.bm.ext_call(fn, args, kw)
        if isinstance(fn, Top):
            self.may_raise_any('call of unknown')
            return self.escape(fn, args, kw)
        self.raise_('TypeError', '%s is not callable' % show(fn)[:80])

    def fork_over(self, vals, f):
        """Apply f to each alternative in a forked state; join the results."""
        base = self.st
        outs, res, raised = [], [], []
        for v in vals:
            self.st = base.copy()
            try:
                res.append(f(v))
                outs.append(self.st)
            except PyRaise as ex:
                raised.append((self.st, ex.val))
        if not outs:
            for st, v in raised[:-1]:
                if self.pending:
                    self.pending[-1].append((st, v))
            self.st, v = raised[-1]
            raise PyRaise(v)
        if self.pending:
            self.pending[-1].extend(raised)
        self.st = joins(outs)
        return choice(res)

    def instantiate(self, cls, args, kw):
        new = self.class_attr(cls, '__new__')
        stub = self.stubs.get(cls.qual)
        if stub is not None:
            return stub(self, args, kw)
        o = self.st.alloc(HObj(cls, {}))
        nt = self.class_attr(cls, '%nt_fields')
        if nt is not None:
            attrs = self.st.w(o).attrs
            for n, v in zip(nt, args):
                attrs[n] = v
            attrs.update(kw)
            return o
        init = self.class_attr(cls, '__init__')
        exc_base = [k for k in cls.mro if isinstance(k, BCls) and k.name in BUILTIN_EXC]
        if exc_base:
            self.st.w(o).attrs['args'] = tuple(args)
        coll = [k for k in cls.mro if isinstance(k, BCls) and k.name in ('list', 'dict', 'set', 'OrderedDict', 'tuple', 'str', 'int', 'float')]
        if coll:
            raise Undecided('subclass of builtin %s' % coll[0].name)
        if init is not None:
            self.call(Bound(init, o), args, kw)
        elif args or kw:
            if not exc_base:
                if any(isinstance(k, (Ext, Top)) for k in cls.mro):
                    return o
                self.raise_('TypeError', '%s() takes no arguments' % cls.name)
        return o

    def class_attr(self, cls, name):
        for k in cls.mro:
            if isinstance(k, Cls):
                ns = self.st.get(k.ns)
                if name in ns.attrs:
                    return ns.attrs[name]
        return None

    def class_attr_owner(self, cls, name):
        for k in cls.mro:
            if isinstance(k, Cls) and name in self.st.get(k.ns).attrs:
                return k
        return None

    def bind(self, f, args, kw):
        """Map call arguments to parameters; raises TypeError like Python."""
        a = f.node.args
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        out = {}
        kw = dict(kw)
        pos = list(args)
        for i, v in enumerate(pos):
            if i < len(names):
                out[names[i]] = v
            elif a.vararg is None:
                self.raise_('TypeError', '%s() takes %d positional arguments but %d were given' % (f.qual, len(names), len(pos)))
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(pos[len(names):])
        for k in list(kw):
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in out:
                    self.raise_('TypeError', '%s() got multiple values for argument %s' % (f.qual, k))
                out[k] = kw.pop(k)
        d0 = len(names) - len(f.defaults)
        for i, n in enumerate(names):
            if n not in out:
                if i >= d0:
                    out[n] = f.defaults[i - d0]
                else:
                    self.raise_('TypeError', '%s() missing argument %s' % (f.qual, n))
        for x in a.kwonlyargs:
            if x.arg not in out:
                if x.arg in f.kwdefaults:
                    out[x.arg] = f.kwdefaults[x.arg]
                else:
                    self.raise_('TypeError', '%s() missing keyword argument %s' % (f.qual, x.arg))
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.new_dict(kw.items())
        elif kw:
            self.raise_('TypeError', '%s() got an unexpected keyword argument %s' % (f.qual, sorted(kw)[0]))
        return out

    def call_func(self, f, args, kw, at_yield=None):
        stub = self.stubs.get(f.qual)
        if stub is not None:
            return stub(self, args, kw)
        if self.depth > self.MAX_DEPTH:
            raise Budget('call depth exceeded in %s' % f.qual)
        self.call_log.add(f.qual)
        vals = self.bind(f, args, kw)
        env = self.st.alloc(HEnv(f.env, vals))
        fr = Frame(env, f.mod, f, args[0] if args else None)
        fr.locals_ = self.local_names(f)
        if f.isgen is None:
            f.isgen = has_yield(f.node)
        ylist = None
        if f.isgen:
            ylist = self.new_list([], 'gen')
            self.st.w(env).attrs['%yields'] = ylist
        if at_yield is not None:
            self.yield_hooks[env.addr] = at_yield
        self.depth += 1
        self.callstack.append(f.qual)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            try:
                flow = self.block(f.node.body, fr)
            except Endless:
                if not f.isgen or self.st is None:
                    raise
                its = self.st.w(ylist).items
                if not its or its[-1] is not ENDLESS:
                    its.append(ENDLESS)
                return ylist
            st, rv = self.st, None
            if flow.ret is not None:
                if st is not None:
                    self.st, rv = joinv([flow.ret, (st, None)])
                else:
                    self.st, rv = flow.ret
            if self.st is None:
                # no normal or returning path: every path raised
                self.reraise_deferred()
            if f.isgen:
                return ylist
            return rv
        finally:
            self.depth -= 1
            self.callstack.pop()

    def local_names(self, f):
        cache = self.entered
        r = cache.get(id(f.node))
        if r is None:
            r = set()
            if not isinstance(f.node, ast.Lambda):
                for n in walk_scope(f.node):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        r.add(n.id)
                    elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        r.add(n.name)
                    elif isinstance(n, ast.ExceptHandler) and n.name:
                        r.add(n.name)
                # names bound only inside comprehensions are not function locals
                comp = set()
                for n in walk_scope(f.node):
                    if isinstance(n, ast.comprehension):
                        for t in ast.walk(n.target):
                            if isinstance(t, ast.Name):
                                comp.add(t.id)
                outside = set()
                self._outside_comp(f.node.body, outside)
                r -= (comp - outside)
            cache[id(f.node)] = r
        return r

    def _outside_comp(self, body, out):
        todo = list(body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.add(n.name)
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            todo.extend(ast.iter_child_nodes(n))

    # ------------------------------------------------------------ attributes
    def getattr_(self, o, name, default=MISSING):
        if isinstance(o, Choice):
            return self.fork_over(o.vals, lambda x: self.getattr_(x, name, default))
        v = self.find_attr(o, name)
        if v is MISSING:
            if default is not MISSING:
                return default
            self.raise_('AttributeError', '%s has no attribute %r' % (self.type_name(o), name))
        return v

    def type_name(self, o):
        if isinstance(o, Ref):
            h = self.st.get(o)
            if h.kind == 'obj':
                return h.cls.name
            return getattr(h, 'sub', h.kind)
        if isinstance(o, Cls):
            return 'class ' + o.name
        return show(o)[:60] if not is_const(o) else type(o).__name__

    def find_attr(self, o, name):
        """Attribute value or MISSING."""
        if isinstance(o, Ref):
            h = self.st.get(o)
            if h.kind == 'obj':
                if isinstance(h.cls, Cls):
                    ca = self.class_attr(h.cls, name)
                    if isinstance(ca, Prop):
                        if ca.fget is None:
                            return MISSING
                        return self.call(ca.fget, [o], {})
                    if name in NT_NAMES:
                        nt = self.class_attr(h.cls, '%nt_fields')
                        if nt is not None:
                            return self.bm.nt_attr(o, h, nt, name)
                    if name in h.attrs:
                        v = h.attrs[name]
                        if isinstance(v, Choice) and MISSING in v.vals or v is MISSING:
                            return self.present(v, 'AttributeError', name)
                        return v
                    if ca is not None or self.class_attr_owner(h.cls, name) is not None:
                        return self.bind_attr(ca, o, h.cls)
                    if name == '__class__':
                        return h.cls
                    if name == '__dict__':
                        return self.bm.dict_view(o)
                    ga = self.class_attr(h.cls, '__getattr__')
                    if ga is not None:
                        return self.call(Bound(ga, o), [name], {})
                    for k in h.cls.mro:
                        if isinstance(k, (Ext, Top)):
                            return self.top('attribute %s of external base' % name)
                        if isinstance(k, BCls):
                            m = self.bm.obj_method(o, h, k.name, name)
                            if m is not MISSING:
                                return m
                    m = self.bm.object_method(o, name)
                    return m
                if name in h.attrs:
                    return h.attrs[name]
                if name == '__class__':
                    return h.cls
                m = self.bm.obj_method(o, h, h.cls.name, name)
                if m is MISSING:
                    m = self.bm.object_method(o, name)
                return m
            return self.bm.coll_attr(o, h, name)
        if isinstance(o, Cls):
            ca = self.class_attr(o, name)
            if ca is not None:
                if isinstance(ca, StaticM):
                    return ca.fn
                if isinstance(ca, ClassM):
                    return Bound(ca.fn, o)
                return ca
            if self.class_attr_owner(o, name) is not None:
                return None
            if name == '__name__':
                return o.name
            if name in ('__mro__', '__bases__'):
                return tuple(o.mro) if name == '__mro__' else tuple(o.bases)
            if name == '_fields':
                nt = self.class_attr(o, '%nt_fields')
                if nt is not None:
                    return tuple(nt)
            if name == '_make':
                if self.class_attr(o, '%nt_fields') is not None:
                    return Builtin('_make', lambda a, k: self.instantiate(o, self.bm.iterate(a[0]), {}))
            if name == '__module__':
                return o.mod.name
            if name == '__class__':
                return BCls('type')
            if name == '__init__':
                return Builtin('object.__init__', lambda a, k: None)
            if name == '__doc__':
                return None
            for k in o.mro:
                if isinstance(k, (Ext, Top)):
                    return self.top('attribute %s of external base' % name)
            return MISSING
        if isinstance(o, ModV):
            v = self.lookup_module_attr(o, name)
            return MISSING if v is None else v
        if isinstance(o, SuperV):
            return self.super_attr(o, name)
        if isinstance(o, Func):
            if name == '__name__':
                return o.node.name if hasattr(o.node, 'name') else '<lambda>'
            if name == '__doc__':
                return None
            return MISSING
        if isinstance(o, Bound):
            return self.find_attr(o.fn, name)
        if isinstance(o, Ext):
            return self.bm.ext_attr(o, name)
        if isinstance(o, Top):
            return Top(o.why)
        return self.bm.value_attr(o, name)

    def bind_attr(self, ca, o, cls):
        if isinstance(ca, Func) or isinstance(ca, Builtin) and ca.name.startswith('def:'):
            return Bound(ca, o)
        if isinstance(ca, StaticM):
            return ca.fn
        if isinstance(ca, ClassM):
            return Bound(ca.fn, cls)
        if isinstance(ca, Choice):
            return choice([self.bind_attr(x, o, cls) for x in ca.vals])
        return ca

    def super_attr(self, s, name):
        o = s.self_
        if isinstance(o, Choice):
            raise Undecided('super on joined self')
        if isinstance(o, Ref):
            cls = self.st.get(o).cls
        else:
            cls = o
        mro = cls.mro
        i = 0
        for i, k in enumerate(mro):
            if isinstance(k, Cls) and k.qual == s.cls.qual:
                break
        for k in mro[i + 1:]:
            if isinstance(k, Cls):
                ns = self.st.get(k.ns)
                if name in ns.attrs:
                    ca = ns.attrs[name]
                    if isinstance(ca, Prop):
                        return self.call(ca.fget, [o], {})
                    return self.bind_attr(ca, o, cls)
            elif isinstance(k, (Ext, Top)):
                return self.top('super() of external base')
            elif isinstance(k, BCls):
                if name == '__init__':
                    if k.name in BUILTIN_EXC:
                        def setargs(a, kw):
                            self.st.w(o).attrs['args'] = tuple(a)
                        return Builtin('Exception.__init__', setargs)
                    return Builtin('object.__init__', lambda a, kw: None)
                m = self.bm.object_method(o, name)
                if m is not MISSING:
                    return m
        if name == '__init__':
            return Builtin('object.__init__', lambda a, kw: None)
        return MISSING

    def setattr_(self, o, name, v):
        if isinstance(o, Choice):
            # weak update on every alternative
            for x in o.vals:
                if isinstance(x, Ref) and self.st.get(x).kind == 'obj':
                    base = self.st
                    alt = base.copy()
                    self.setattr_(x, name, v)
                    self.st = join(self.st, alt)
                else:
                    self.may_raise('AttributeError', name)
            return
        if isinstance(o, Ref):
            h = self.st.get(o)
            if h.kind == 'obj':
                if isinstance(h.cls, Cls):
                    ca = self.class_attr(h.cls, name)
                    if isinstance(ca, Prop):
                        if ca.fset is None:
                            self.raise_('AttributeError', "can't set attribute %r" % name)
                        self.call(ca.fset, [o, v], {})
                        return
                    sa = self.class_attr(h.cls, '__setattr__')
                    if sa is not None:
                        raise Undecided('__setattr__')
                if self.watch is not None:
                    self.watch(self, o, name, v)
                self.st.w(o).attrs[name] = v
                return
            self.raise_('AttributeError', name)
        if isinstance(o, Cls):
            self.st.w(o.ns).attrs[name] = v
            return
        if isinstance(o, ModV):
            self.st.w(o.env).attrs[name] = v
            return
        if isinstance(o, Ext):
            self.st.event((o.path + '.' + name + '=', (v,), ()))
            return
        if isinstance(o, (Top, Func)):
            return
        self.raise_('AttributeError', '%s has no attribute %r' % (self.type_name(o), name))
