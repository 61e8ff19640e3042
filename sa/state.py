"""Abstract heap state: copy-on-write store with join."""

from .values import *


class HObj(object):
    """Instance / environment / class namespace: named slots."""
    __slots__ = ('cls', 'attrs')
    kind = 'obj'

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}

    def clone(self):
        return HObj(self.cls, dict(self.attrs))

    def children(self):
        return list(self.attrs.values())


class HEnv(HObj):
    __slots__ = ('parent',)
    kind = 'env'

    def __init__(self, parent=None, attrs=None):
        HObj.__init__(self, None, attrs)
        self.parent = parent

    def clone(self):
        return HEnv(self.parent, dict(self.attrs))


class Undecided(Exception):
    """Construct outside the modelled language subset."""


class Endless(Undecided):
    """Ran out of the items that are held of an endless iterator."""


class _Endless(object):
    """Last item of the items that are held of an endless iterator."""

    def key(self):
        return 'endless'

    def __repr__(self):
        return 'ENDLESS'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


ENDLESS = _Endless()


class HList(object):
    """list / iterator / generator / deque."""
    __slots__ = ('items', 'sub')
    kind = 'list'

    def __init__(self, items, sub='list'):
        self.items = list(items)
        self.sub = sub

    def clone(self):
        return HList(self.items, self.sub)

    def children(self):
        return [i.v if isinstance(i, Opt) else i for i in self.items]


class HDict(object):
    """dict / OrderedDict: key -> (keyvalue, value) by canonical key."""
    __slots__ = ('d', 'sub', 'default', 'open')
    kind = 'dict'

    def __init__(self, sub='dict', default=None):
        self.d = {}
        self.sub = sub
        self.default = default
        self.open = None     # joined value of unknown extra entries, or None

    def clone(self):
        h = HDict(self.sub, self.default)
        h.d = dict(self.d)
        h.open = self.open
        return h

    def children(self):
        out = []
        for k, v in self.d.values():
            out.append(k)
            out.append(v)
        return out


class HSet(object):
    __slots__ = ('d',)
    kind = 'set'

    def __init__(self):
        self.d = {}

    def clone(self):
        h = HSet()
        h.d = dict(self.d)
        return h

    def children(self):
        return [i.v if isinstance(i, Opt) else i for i in self.d.values()]


_COUNTER = [0]


def new_addr():
    _COUNTER[0] += 1
    return _COUNTER[0]


class State(object):
    __slots__ = ('heap', 'owned', 'assume', 'events', 'imprecise')

    def __init__(self):
        self.heap = {}
        self.owned = set()
        self.assume = {}
        self.events = []
        self.imprecise = []

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.owned = set()
        self.owned = set()     # both must clone on write
        s.assume = dict(self.assume)
        s.events = list(self.events)
        s.imprecise = self.imprecise      # shared log
        return s

    def alloc(self, obj):
        a = new_addr()
        self.heap[a] = obj
        self.owned.add(a)
        return Ref(a)

    def get(self, ref):
        return self.heap[ref.addr]

    def w(self, ref):
        """Object for writing."""
        a = ref.addr
        if a not in self.owned:
            self.heap[a] = self.heap[a].clone()
            self.owned.add(a)
        return self.heap[a]

    def event(self, e):
        self.events.append(e)


class Gate(object):
    """Conditions on which two joined states differ: lets the join keep exact
    numbers (gated values) instead of a set of alternatives."""
    __slots__ = ('neg', 'eq1', 'eq2')

    def __init__(self, s1, s2):
        self.neg = None         # (key, value in s1)
        self.eq1 = []           # equalities that hold in s1 only
        self.eq2 = []
        a1, a2 = s1.assume, s2.assume
        if a1 is a2:
            return
        for k, v in a1.items():
            w = a2.get(k)
            if w == v:
                continue
            c = CONDS.get(k)
            if c is None:
                continue
            if c[0] == 'neg':
                if w is not None and self.neg is None:
                    self.neg = (k, v)
            elif v:
                self.add(self.eq1, c[1])
        for k, w in a2.items():
            if w and a1.get(k) is not True and k in CONDS and CONDS[k][0] == 'eq':
                self.add(self.eq2, CONDS[k][1])

    @staticmethod
    def add(lst, p):
        m = solve_eq(p)
        if m is None:
            return
        if not lst:
            lst.append(m)
            return
        (k, v), = m.items()
        if k not in lst[0] and not any(k in x for val in lst[0].values() if isinstance(val, Poly) for mm in val.terms for x, _ in mm):
            lst[0][k] = subst(v, lst[0]) if isinstance(v, Poly) else v

    def active(self):
        return self.neg is not None or self.eq1 or self.eq2


def num_like(v):
    if isinstance(v, tuple):
        return len(v) > 0 and all(num_like(x) for x in v)
    return isinstance(v, (int, float, Poly)) and not isinstance(v, bool)


def gate_vals(g, a, b):
    """Join of two different values under a gate; MISSING when not applicable."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b) or not (num_like(a) and num_like(b)):
            return MISSING
        out = []
        for x, y in zip(a, b):
            r = x if same(x, y) else gate_vals(g, x, y)
            if r is MISSING:
                return MISSING
            out.append(r)
        return tuple(out)
    if not (num_like(a) and num_like(b)) or isinstance(a, tuple) or isinstance(b, tuple):
        return MISSING
    for m in g.eq1:
        # in s1 the equality holds: b is also valid there if it reduces to a
        if isinstance(b, Poly) and same(subst(b, m), subst(a, m) if isinstance(a, Poly) else a):
            return b
    for m in g.eq2:
        if isinstance(a, Poly) and same(subst(a, m), subst(b, m) if isinstance(b, Poly) else b):
            return a
    if g.neg is not None:
        k, v = g.neg
        return ite(k, a, b) if v else ite(k, b, a)
    return MISSING


def join_vals(a, b, g=None):
    if a is b:
        return a
    if g is not None:
        r = gate_vals(g, a, b) if not same(a, b) else a
        if r is not MISSING:
            return r
    return choice([a, b])


def _opt(x):
    return x if isinstance(x, Opt) else Opt(x)


def join_items(x, y, g=None):
    n = 0
    out = []
    while n < len(x) and n < len(y):
        a, b = x[n], y[n]
        if isinstance(a, Opt) or isinstance(b, Opt):
            if vkey(a) == vkey(b):
                out.append(a)
                n += 1
                continue
            break
        if len(x) != len(y) and vkey(a) != vkey(b):
            break
        out.append(a if a is b else join_vals(a, b, g))
        n += 1
    # alignment of differing middles: common suffix
    rx, ry = x[n:], y[n:]
    suf = []
    while rx and ry and vkey(rx[-1]) == vkey(ry[-1]):
        suf.insert(0, rx[-1])
        rx, ry = rx[:-1], ry[:-1]
    out.extend(_opt(i) for i in rx)
    out.extend(_opt(i) for i in ry)
    out.extend(suf)
    if len(out) > 60:
        return [Opt(choice([i.v if isinstance(i, Opt) else i for i in out]), True)]
    return out


def join_objs(a, b, g=None):
    if a is b:
        return a
    if a.kind != b.kind:
        return a
    c = a.clone()
    if a.kind in ('obj', 'env'):
        for k in set(a.attrs) | set(b.attrs):
            va = a.attrs.get(k, MISSING)
            vb = b.attrs.get(k, MISSING)
            if va is not vb:
                c.attrs[k] = join_vals(va, vb, g)
        if a.cls is not b.cls and a.kind == 'obj' and not same(a.cls, b.cls):
            c.cls = a.cls
    elif a.kind == 'list':
        c.items = join_items(a.items, b.items, g)
    elif a.kind == 'dict':
        for k in list(a.d) + [k for k in b.d if k not in a.d]:
            ka, va = a.d.get(k, (None, MISSING))
            kb, vb = b.d.get(k, (None, MISSING))
            kk = a.d[k][0] if k in a.d else b.d[k][0]
            c.d[k] = (kk, join_vals(va, vb, g))
        if a.open is not None or b.open is not None:
            c.open = choice([v for v in (a.open, b.open) if v is not None])
    elif a.kind == 'set':
        for k in list(a.d) + [k for k in b.d if k not in a.d]:
            if k in a.d and k in b.d:
                c.d[k] = a.d[k] if not isinstance(a.d[k], Opt) else a.d[k]
                if isinstance(b.d[k], Opt):
                    c.d[k] = b.d[k]
            else:
                v = a.d.get(k, b.d.get(k))
                c.d[k] = _opt(v)
    return c


def join(s1, s2):
    """Least upper bound of two states (None = unreachable)."""
    if s1 is None:
        return s2
    if s2 is None:
        return s1
    if s1 is s2:
        return s1
    s = State()
    s.imprecise = s1.imprecise
    g = Gate(s1, s2)
    if not g.active():
        g = None
    h1, h2 = s1.heap, s2.heap
    heap = dict(h2)
    heap.update(h1)
    for a, o in h1.items():
        o2 = h2.get(a)
        if o2 is not None and o2 is not o:
            heap[a] = join_objs(o, o2, g)
            s.owned.add(a)
    s.heap = heap
    for k, v in s1.assume.items():
        if s2.assume.get(k) == v:
            s.assume[k] = v
    s.events = join_items(s1.events, s2.events) if s1.events is not s2.events else s1.events
    return s


def joinv(pairs):
    """Join of (state, value) pairs."""
    st, v = pairs[0]
    for s2, v2 in pairs[1:]:
        if s2 is None:
            continue
        if st is None:
            st, v = s2, v2
            continue
        g = Gate(st, s2)
        v = join_vals(v, v2, g if g.active() else None)
        st = join(st, s2)
    return st, v


def joins(states):
    r = None
    for s in states:
        r = join(r, s)
    return r
