"""Convenience layer for checks: build abstract objects, call methods, read
attributes; classify the outcome of a scenario."""

import os

from .project import Project
from .interp import Interp, PyRaise, Dead, Budget, Undecided
from .values import *
from .state import *


class AnchorMissing(Exception):
    """A public construct the property is about no longer exists."""


class Outcome(object):
    """kind: 'ok' (value), 'raise' (value = exception class name), 'undecided'."""
    __slots__ = ('kind', 'value', 'why', 'maybe')

    def __init__(self, kind, value=None, why='', maybe=()):
        self.kind = kind
        self.value = value
        self.why = why
        self.maybe = maybe      # possible exceptions [(class name, text)]


def _hull(I, args, kw):
    """convex_hull is numerical: keep the candidate points, in order."""
    pts = args[0] if args else kw.get('points')
    return I.new_list(list(I.bm.iterate(pts)))


DEFAULT_STUBS = {'gerber.utils:convex_hull': _hull}


class Lab(object):
    def __init__(self, modules, stubs=None, project=None):
        self.project = project or Project()
        st = dict(DEFAULT_STUBS)
        st.update(stubs or {})
        self.I = Interp(self.project, st)
        self.I.pending = [[]]
        for m in modules:
            try:
                r = self.I.module(m)
            except (PyRaise, Dead) as e:
                raise AnchorMissing('module %s fails to import in the analysis: %s' % (m, e))
            if r is None:
                raise AnchorMissing('module %s not found' % m)
        self.base = self.I.st

    # -- scenario control
    def fresh(self):
        self.I.st = self.base.copy()
        self.I.pending = [[]]
        self.I.depth = 0
        self.I.steps = 0
        self.I.watch = None
        self.I.st.imprecise = []

    def obj_from(self, spec):
        """Value of 'module:Name[.attr...]'."""
        mod, name = spec.split(':')
        parts = name.split('.')
        m = self.I.module(mod)
        if m is None:
            raise AnchorMissing('module %s not found' % mod)
        v = self.I.st.get(m.env).attrs.get(parts[0])
        if v is None:
            raise AnchorMissing('%s not found' % spec)
        for p in parts[1:]:
            v = self.I.getattr_(v, p)
        return v

    def has(self, spec):
        try:
            self.obj_from(spec)
            return True
        except (AnchorMissing, PyRaise):
            return False

    def new(self, spec, *a, **k):
        c = self.obj_from(spec) if isinstance(spec, str) else spec
        return self.I.call(c, list(a), k)

    def call(self, o, meth, *a, **k):
        return self.I.call(self.I.getattr_(o, meth), list(a), k)

    def get(self, o, attr):
        return self.I.getattr_(o, attr)

    def set(self, o, attr, v):
        self.I.setattr_(o, attr, v)

    def attrs(self, ref):
        return self.I.st.get(ref).attrs

    def items(self, v):
        return self.I.bm.iterate(v)

    def list(self, items):
        return self.I.new_list(items)

    def dict(self, **k):
        return self.I.new_dict(list(k.items()))

    def cls_of(self, ref):
        return self.I.st.get(ref).cls.name if isinstance(ref, Ref) and self.I.st.get(ref).kind == 'obj' else type(ref).__name__

    def is_a(self, v, spec):
        return self.I.truth(self.I.bm.isinstance_(v, self.obj_from(spec)))

    def exc_name(self, v):
        if isinstance(v, Ref) and v.addr in self.I.st.heap:
            h = self.I.st.get(v)
            a = h.attrs.get('args', ())
            return h.cls.name, ', '.join(show(x) for x in a) if isinstance(a, tuple) else ''
        return '?', show(v)

    def run(self, thunk):
        """Run a scenario step."""
        n0 = len(self.I.st.imprecise)
        try:
            v = thunk()
        except PyRaise as e:
            n, t = self.exc_name(e.val)
            return Outcome('raise', n, t)
        except Dead:
            return Outcome('raise', '?', 'every path raises')
        except (Undecided, Budget) as e:
            return Outcome('undecided', why=str(e))
        except RecursionError:
            return Outcome('undecided', why='recursion limit')
        except AnchorMissing:
            raise
        except Exception as e:      # a construct the interpreter does not handle
            if os.environ.get('SA_DEBUG'):
                raise
            return Outcome('undecided', why='analysis: %s: %s' % (type(e).__name__, e))
        maybe = []
        for st, x in self.I.pending[0]:
            if isinstance(x, Ref) and x.addr in st.heap:
                h = st.heap[x.addr]
                maybe.append((h.cls.name, ', '.join(show(y) for y in h.attrs.get('args', ()))))
            else:
                maybe.append(('?', show(x)))
        return Outcome('ok', v, maybe=maybe)

    def snapshot(self, roots):
        """Structural digest of everything reachable from the given values."""
        out = {}
        todo = [r for r in roots]
        while todo:
            v = todo.pop()
            if isinstance(v, Opt):
                v = v.v
            if isinstance(v, Choice):
                todo.extend(v.vals)
            elif isinstance(v, tuple):
                todo.extend(v)
            elif isinstance(v, Bound):
                todo.append(v.self_)
            elif isinstance(v, Ref) and v.addr not in out:
                o = self.I.st.get(v)
                if o.kind in ('obj', 'env'):
                    out[v.addr] = (o.kind, o.cls.name if o.cls is not None else '', dict((k, vkey(x)) for k, x in o.attrs.items()))
                elif o.kind == 'list':
                    out[v.addr] = ('list', '', dict(enumerate(vkey(x) for x in o.items)))
                elif o.kind == 'dict':
                    out[v.addr] = ('dict', '', dict((k, vkey(x[1])) for k, x in o.d.items()))
                else:
                    out[v.addr] = ('set', '', dict((k, '') for k in o.d))
                todo.extend(o.children())
        return out

    def where(self, clsname, attr=None, mod=None):
        """file:line of a class member (for reports)."""
        import ast
        import os
        try:
            c = self.obj_from(clsname)
        except (AnchorMissing, PyRaise):
            return clsname
        if isinstance(c, Func):
            return '%s:%d' % (os.path.relpath(self.project.path(c.mod.name), self.project.root), c.node.lineno)
        if not isinstance(c, Cls) or c.node is None:
            return clsname
        node = c.node
        k = c
        if attr:
            for kk in c.mro:
                if isinstance(kk, Cls) and kk.node is not None:
                    hit = [n for n in kk.node.body if isinstance(n, ast.FunctionDef) and n.name == attr]
                    if hit:
                        node, k = hit[-1], kk
                        break
        return '%s:%d (%s%s)' % (os.path.relpath(self.project.path(k.mod.name), self.project.root), node.lineno, k.name, '.' + attr if attr and node is not k.node else '')
