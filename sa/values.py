"""Abstract value domain.

Constants are native Python values (None, bool, int, float, str, bytes) and
tuples of values.  Everything else is one of the classes below.

  Poly    number: polynomial normal form over labelled inputs and
          uninterpreted (Herbrand) function applications
  BTerm   truth value of an undecided comparison / predicate
  SStr    string shape: literal pieces and labelled holes
  Choice  finite join of values
  Top     unknown (with provenance)
  Ref     address of an abstract heap object
"""

import math

EPS = 1e-9


def rnd(c):
    """Round a coefficient to 12 significant digits (normal form)."""
    if c == 0:
        return 0.0
    r = float('%.12g' % c)
    return r


# ---------------------------------------------------------------- atoms

class Atom(object):
    __slots__ = ('key', 'fn', 'args', 'sign', 'isint', 'label')

    def __init__(self, key, fn=None, args=(), sign=None, isint=False, label=None):
        self.key = key
        self.fn = fn            # None for an input symbol
        self.args = args
        self.sign = sign        # '+' strictly positive, '0+' non-negative, None
        self.isint = isint
        self.label = label


ATOMS = {}


def sym(label, sign=None, isint=False):
    """Labelled abstract input number."""
    a = ATOMS.get(label)
    if a is None:
        a = ATOMS[label] = Atom(label, sign=sign, isint=isint, label=label)
    return Poly({((label, 1),): 1.0})


DIGIT_ATOMS = {}          # label of a one-digit symbol -> its possible characters


def digit_expansion(v):
    """(negative, {exponent: digit}) of a number written as a sum of digits
    times powers of ten; a digit is a symbol label or an int.  None otherwise."""
    import math
    if not isinstance(v, Poly) or not v.terms:
        return None
    neg = None
    out = {}
    for m, c in v.terms.items():
        if m == ():
            return None
        if len(m) != 1 or m[0][1] != 1 or m[0][0] not in DIGIT_ATOMS:
            return None
        if neg is None:
            neg = c < 0
        elif neg != (c < 0):
            return None
        e = math.log10(abs(c))
        k = int(round(e))
        if abs(abs(c) / 10.0 ** k - 1) > 1e-9 or k in out:
            return None
        out[k] = m[0][0]
    return neg, out


def app(fn, *args, **kw):
    """Uninterpreted application fn(args) as a number."""
    key = fn + '(' + ','.join(vkey(a) for a in args) + ')'
    if key not in ATOMS:
        ATOMS[key] = Atom(key, fn=fn, args=args, sign=kw.get('sign'), isint=kw.get('isint', False))
    return Poly({((key, 1),): 1.0})


class Poly(object):
    __slots__ = ('terms', '_key')

    def __init__(self, terms):
        t = {}
        for m, c in terms.items():
            c = rnd(c)
            if abs(c) > 1e-13:
                t[m] = c
        self.terms = t
        self._key = None

    # -- normal form
    def key(self):
        if self._key is None:
            parts = []
            for m in sorted(self.terms):
                parts.append('%s*%s' % (('%.9g' % self.terms[m]), '.'.join(
                    a if p == 1 else '%s^%s' % (a, p) for a, p in m)))
            self._key = 'P{' + ' + '.join(parts) + '}'
        return self._key

    def const(self):
        """Native constant if this polynomial is constant, else None."""
        if not self.terms:
            return 0
        if len(self.terms) == 1 and () in self.terms:
            return self.terms[()]
        return None

    def simp(self):
        c = self.const()
        return self if c is None else c

    @staticmethod
    def of(v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, bool):
            v = int(v)
        return Poly({(): float(v)})

    def __add__(self, o):
        o = Poly.of(o)
        t = dict(self.terms)
        for m, c in o.terms.items():
            t[m] = t.get(m, 0.0) + c
        return Poly(t).simp()

    __radd__ = __add__

    def __neg__(self):
        return Poly(dict((m, -c) for m, c in self.terms.items()))

    def __sub__(self, o):
        o = Poly.of(o)
        return self + Poly(dict((m, -c) for m, c in o.terms.items()))

    def __rsub__(self, o):
        return Poly.of(o) - self

    def __mul__(self, o):
        o = Poly.of(o)
        t = {}
        for m1, c1 in self.terms.items():
            for m2, c2 in o.terms.items():
                m = mono_mul(m1, m2)
                # sqrt(p)^2 = p
                extra = None
                for i, (a, p) in enumerate(m):
                    at = ATOMS.get(a)
                    if at is not None and at.fn == 'sqrt' and p >= 2:
                        rest = m[:i] + (((a, p - 2),) if p > 2 else ()) + m[i + 1:]
                        extra = Poly({rest: c1 * c2}) * at.args[0]
                        break
                if extra is not None:
                    for mm, cc in Poly.of(extra).terms.items():
                        t[mm] = t.get(mm, 0.0) + cc
                else:
                    t[m] = t.get(m, 0.0) + c1 * c2
        return Poly(t).simp()

    __rmul__ = __mul__

    def div(self, o):
        if isinstance(o, Poly) and o.const() is None:
            if len(o.terms) == 1:
                (m, c), = o.terms.items()
                inv = Poly({tuple((a, -p) for a, p in m): 1.0 / c})
                return self * inv
            # p / q with q a proper polynomial: ratio of equal polys simplifies
            if len(self.terms) == len(o.terms) and set(self.terms) == set(o.terms):
                rs = [self.terms[m] / o.terms[m] for m in o.terms]
                if max(rs) - min(rs) < EPS * max(1, abs(max(rs))):
                    return rnd(rs[0])
            return self * app('inv', o)
        c = Poly.of(o).const()
        if c == 0:
            raise ZeroDivisionError()
        return Poly(dict((m, v / c) for m, v in self.terms.items())).simp()

    def __repr__(self):
        return show(self)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


def mono_mul(m1, m2):
    d = dict(m1)
    for a, p in m2:
        d[a] = d.get(a, 0) + p
        if d[a] == 0:
            del d[a]
    return tuple(sorted(d.items()))


def poly_sign(p):
    """Sign of a number: '+', '-', '0', '0+', '0-' or None (unknown)."""
    if not isinstance(p, Poly):
        return '+' if p > 0 else '-' if p < 0 else '0'
    c = p.const()
    if c is not None:
        return '+' if c > 0 else '-' if c < 0 else '0'
    acc = None
    strict = False
    if DIGIT_ATOMS and all(m == () or len(m) == 1 and m[0][1] == 1 and m[0][0] in DIGIT_ATOMS for m in p.terms):
        lo = hi = 0.0
        for m, c in p.terms.items():
            ds = [float(x) for x in DIGIT_ATOMS[m[0][0]]] if m else [1.0]
            lo += min(c * min(ds), c * max(ds))
            hi += max(c * min(ds), c * max(ds))
        if lo >= 0:
            return '+' if lo > 0 else '0+'
        if hi <= 0:
            return '-' if hi < 0 else '0-'
        return None
    for m, c in p.terms.items():
        s = 1
        st = True
        for a, pw in m:
            at = ATOMS[a]
            if pw % 2 == 0 and at.sign is None:
                st = False
                continue
            if at.sign == '+':
                pass
            elif at.sign == '0+':
                st = False
            else:
                return None
        sg = 1 if c > 0 else -1
        if acc is None:
            acc = sg
        elif acc != sg:
            return sign_minmax(p)
        strict = strict or st
    if acc is None:
        return '0'
    return ('+' if strict else '0+') if acc > 0 else ('-' if strict else '0-')


def sign_minmax(p):
    """max(a, b) - a >= 0 and a - min(a, b) >= 0: substitute the extremum by
    one of its arguments (a lower/upper bound of the whole polynomial)."""
    for m, c in p.terms.items():
        if len(m) == 1 and m[0][1] == 1:
            at = ATOMS[m[0][0]]
            if at.fn in ('max', 'min'):
                for arg in at.args:
                    q = Poly.of(p) - Poly({m: c}) + Poly.of(arg) * c
                    s = poly_sign(q)
                    lower = (at.fn == 'max') == (c > 0)   # p >= q
                    if lower and s in ('+', '0+', '0'):
                        return '0+' if s != '+' else '+'
                    if not lower and s in ('-', '0-', '0'):
                        return '0-' if s != '-' else '-'
    return None


# ---------------------------------------------------------------- others

class BTerm(object):
    """Undecided truth value; key identifies the predicate."""
    __slots__ = ('k', 'neg')

    def __init__(self, k, neg=False):
        self.k = k
        self.neg = neg

    def flip(self):
        return BTerm(self.k, not self.neg)

    def key(self):
        return ('!' if self.neg else '') + 'B{' + self.k + '}'

    def __repr__(self):
        return self.key()


class Hole(object):
    """A labelled unknown part of a string."""
    __slots__ = ('label', 'chars', 'minlen', 'maxlen', 'val', 'first')

    def __init__(self, label, chars, minlen=1, maxlen=None, val=None, first=None):
        self.label = label
        self.chars = frozenset(chars)
        self.minlen = minlen
        self.maxlen = maxlen
        self.val = val                   # number this text denotes, if any
        self.first = frozenset(first) if first is not None else self.chars

    def key(self):
        return '<%s>' % self.label

    def __repr__(self):
        return '<%s>' % self.label


class SStr(object):
    """String shape: sequence of literal pieces and holes."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if p == '':
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)

    def simp(self):
        if not self.parts:
            return ''
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return self

    def tokens(self):
        for p in self.parts:
            if isinstance(p, str):
                for c in p:
                    yield c
            else:
                yield p

    @staticmethod
    def from_tokens(toks):
        return SStr(toks).simp()

    def minlen(self):
        return sum(len(p) if isinstance(p, str) else p.minlen for p in self.parts)

    def maxlen(self):
        n = 0
        for p in self.parts:
            if isinstance(p, str):
                n += len(p)
            elif p.maxlen is None:
                return None
            else:
                n += p.maxlen
        return n

    def key(self):
        return 'S{' + ''.join(p if isinstance(p, str) else p.key() for p in self.parts) + '}'

    def __repr__(self):
        return self.key()


def toks(v):
    return list(v) if isinstance(v, str) else list(v.tokens())


DIGITS = '0123456789'
UPPER = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
LOWER = UPPER.lower()


def hole(label, chars, minlen=1, maxlen=None, val=None, first=None):
    return SStr([Hole(label, chars, minlen, maxlen, val, first)])


class Top(object):
    __slots__ = ('why',)

    def __init__(self, why=''):
        self.why = why

    def key(self):
        return 'T{}'

    def __repr__(self):
        return 'Top(%s)' % self.why


class Choice(object):
    """Finite join of values (never nested, never a single value)."""
    __slots__ = ('vals',)
    LIMIT = 12

    def __init__(self, vals):
        self.vals = tuple(vals)

    def key(self):
        return 'C{' + '|'.join(sorted(vkey(v) for v in self.vals)) + '}'

    def __repr__(self):
        return 'Choice(%s)' % ', '.join(show(v) for v in self.vals)


class _Missing(object):
    def key(self):
        return 'MISSING'

    def __repr__(self):
        return 'MISSING'


MISSING = _Missing()


class Opt(object):
    """List element that may be absent (many: zero or more times)."""
    __slots__ = ('v', 'many')

    def __init__(self, v, many=False):
        self.v = v
        self.many = many

    def key(self):
        return ('*' if self.many else '?') + vkey(self.v)

    def __repr__(self):
        return self.key()


class Ref(object):
    __slots__ = ('addr',)

    def __init__(self, addr):
        self.addr = addr

    def __eq__(self, o):
        return isinstance(o, Ref) and o.addr == self.addr

    def __hash__(self):
        return hash(self.addr)

    def key(self):
        return '@%d' % self.addr

    def __repr__(self):
        return '@%d' % self.addr


class Func(object):
    __slots__ = ('node', 'env', 'mod', 'owner', 'defaults', 'kwdefaults', 'qual', 'isgen')

    def __init__(self, node, env, mod, owner, defaults, kwdefaults, qual):
        self.node = node
        self.env = env
        self.mod = mod
        self.owner = owner
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.qual = qual
        self.isgen = None

    def key(self):
        return 'F{%s:%s}' % (self.qual, getattr(self.node, 'lineno', 0))

    def __repr__(self):
        return 'Func(%s)' % self.qual


class Bound(object):
    __slots__ = ('fn', 'self_')

    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_

    def key(self):
        return 'M{%s,%s}' % (vkey(self.fn), vkey(self.self_))

    def __repr__(self):
        return 'Bound(%r,%r)' % (self.fn, self.self_)


class Prop(object):
    __slots__ = ('fget', 'fset')

    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset

    def key(self):
        return 'Prop'


class StaticM(object):
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn

    def key(self):
        return 'Static'


class ClassM(object):
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn

    def key(self):
        return 'ClassM'


def c3(cls, bases):
    """Method resolution order."""
    def key(k):
        return k.name if isinstance(k, BCls) else id(k)
    seqs = [list(b.mro) if isinstance(b, Cls) else [b] for b in bases] + [list(bases)]
    out = [cls]
    while True:
        seqs = [q for q in seqs if q]
        if not seqs:
            return out
        for q in seqs:
            if not any(key(q[0]) in [key(x) for x in r[1:]] for r in seqs):
                head = q[0]
                break
        else:
            head = seqs[0][0]
        out.append(head)
        seqs = [[x for x in q if key(x) != key(head)] for q in seqs]


class Cls(object):
    """User class.  Namespace lives in the heap at ns."""
    __slots__ = ('qual', 'name', 'mod', 'node', 'bases', 'ns', 'mro')

    def __init__(self, qual, name, mod, node, bases, ns):
        self.qual = qual
        self.name = name
        self.mod = mod
        self.node = node
        self.bases = bases
        self.ns = ns
        m = c3(self, bases)
        # keep builtin/Top bases last
        self.mro = [k for k in m if isinstance(k, Cls)] + [k for k in m if not isinstance(k, Cls)]

    def key(self):
        return 'K{%s}' % self.qual

    def __repr__(self):
        return 'Cls(%s)' % self.qual


class BCls(object):
    """Builtin class / type by name."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, BCls) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def key(self):
        return 'BK{%s}' % self.name

    def __repr__(self):
        return 'BCls(%s)' % self.name


class Builtin(object):
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def key(self):
        return 'BF{%s}' % self.name

    def __repr__(self):
        return 'Builtin(%s)' % self.name


class ModV(object):
    __slots__ = ('name', 'env')

    def __init__(self, name, env):
        self.name = name
        self.env = env

    def key(self):
        return 'Mod{%s}' % self.name

    def __repr__(self):
        return 'Mod(%s)' % self.name


class Ext(object):
    """Value of an external (unmodelled) library, e.g. cairo.  Calls on it are
    logged as effects; its attributes and results are further Ext values."""
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def key(self):
        return 'X{%s}' % self.path

    def __repr__(self):
        return 'Ext(%s)' % self.path


class Regex(object):
    __slots__ = ('pattern', 'flags')
    seen = set()        # every pattern the analysis has met

    def __init__(self, pattern, flags=0):
        Regex.seen.add((pattern, flags))
        self.pattern = pattern
        self.flags = flags

    def key(self):
        return 'RE{%s}' % self.pattern


class MatchV(object):
    __slots__ = ('groups', 'names', 'n', 'string', 'ends', 'rest', 'endpos_tokens')

    def __init__(self, groups, names, n):
        self.groups = groups      # dict idx -> value or None
        self.names = names        # dict name -> idx
        self.n = n
        self.ends = {}

    def key(self):
        return 'Match{%s}' % ','.join(vkey(self.groups[i]) for i in sorted(self.groups))


class SliceV(object):
    __slots__ = ('a', 'b', 'c')

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def key(self):
        return 'Sl'


class CtxV(object):
    """A @contextmanager function, or (with args) what calling it gives."""
    __slots__ = ('fn', 'args', 'kw')

    def __init__(self, fn, args=None, kw=None):
        self.fn, self.args, self.kw = fn, args, kw

    def key(self):
        return 'Ctx{%s}' % vkey(self.fn)


class SuperV(object):
    __slots__ = ('cls', 'self_')

    def __init__(self, cls, self_):
        self.cls = cls
        self.self_ = self_

    def key(self):
        return 'Super'


class Partial(object):
    __slots__ = ('fn', 'args', 'kw')

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw

    def key(self):
        return 'Partial{%s,%s}' % (vkey(self.fn), ','.join(vkey(a) for a in self.args))


# ---------------------------------------------------------------- keys

def vkey(v):
    """Canonical key: equal keys == equal abstract values."""
    if v is None or isinstance(v, bool):
        return repr(v)
    if isinstance(v, (int, float)):
        try:
            return '#%.10g' % v
        except OverflowError:
            return '#%r' % v
    if isinstance(v, (str, bytes)):
        return repr(v)
    if isinstance(v, tuple):
        return '(' + ','.join(vkey(x) for x in v) + ',)'
    if isinstance(v, frozenset):
        return 'fs{' + ','.join(sorted(vkey(x) for x in v)) + '}'
    k = getattr(v, 'key', None)
    if k is not None:
        return k()
    return '?%d' % id(v)


def same(a, b):
    return vkey(a) == vkey(b)


def show(v):
    """Human-readable rendering for reports."""
    if isinstance(v, Poly):
        out = []
        for m in sorted(v.terms):
            c = v.terms[m]
            mm = '*'.join((show_atom(a)) + ('' if p == 1 else '^%s' % p) for a, p in m)
            cs = '%.6g' % c
            if mm and cs == '1':
                out.append(mm)
            elif mm and cs == '-1':
                out.append('-' + mm)
            else:
                out.append(cs + ('*' + mm if mm else ''))
        return ' + '.join(out).replace('+ -', '- ')
    if isinstance(v, tuple):
        return '(' + ', '.join(show(x) for x in v) + ')'
    if isinstance(v, SStr):
        return "'" + ''.join(p if isinstance(p, str) else '<%s>' % p.label for p in v.parts) + "'"
    if isinstance(v, Choice):
        return '{' + ' | '.join(show(x) for x in v.vals) + '}'
    return repr(v)


def show_atom(a):
    at = ATOMS.get(a)
    if at is None or at.fn is None:
        return a
    return at.fn + '(' + ', '.join(show(x) for x in at.args) + ')'


def is_num(v):
    return isinstance(v, (int, float, Poly)) and not isinstance(v, bool) or isinstance(v, bool)


def is_const(v):
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return True
    if isinstance(v, tuple):
        return all(is_const(x) for x in v)
    return False


def is_str(v):
    return isinstance(v, (str, SStr))


def flatten_choice(vals):
    out, seen = [], set()
    for v in vals:
        for w in (v.vals if isinstance(v, Choice) else (v,)):
            k = vkey(w)
            # True and 1 differ as values
            if k not in seen:
                seen.add(k)
                out.append(w)
    return out


def choice(vals):
    """Join of values."""
    vs = flatten_choice(vals)
    if not vs:
        return Top('empty join')
    for v in vs:
        if isinstance(v, Top):
            return v
    if len(vs) == 1:
        return vs[0]
    if len(vs) > Choice.LIMIT:
        return Top('join wider than %d' % Choice.LIMIT)
    return Choice(vs)


def alts(v):
    return v.vals if isinstance(v, Choice) else (v,)


# numeric functions -----------------------------------------------------

def num_minmax(fn, vals):
    """n-ary min/max with flattening and dominated-argument removal."""
    flat = []
    for v in vals:
        if isinstance(v, Poly) and len(v.terms) == 1:
            (m, c), = v.terms.items()
            if c == 1.0 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].fn == fn:
                flat.extend(ATOMS[m[0][0]].args)
                continue
        flat.append(v)
    uniq = []
    for v in flat:
        if not any(same(v, u) for u in uniq):
            uniq.append(v)
    keep = []
    for i, v in enumerate(uniq):
        dominated = False
        for j, u in enumerate(uniq):
            if i == j:
                continue
            s = poly_sign(Poly.of(v) - Poly.of(u))
            if fn == 'min' and (s in ('+', '0+') and not (s == '0+' and j > i and poly_sign(Poly.of(u) - Poly.of(v)) in ('0+',))):
                dominated = True
            if fn == 'max' and (s in ('-', '0-')):
                dominated = True
            if dominated:
                break
        if not dominated:
            keep.append(v)
    if len(keep) == 1:
        return keep[0]
    keep.sort(key=vkey)
    # pull out common additive part: min(a + k, b + k) = min(a, b) + k
    ps = [Poly.of(v) for v in keep]
    common = dict(ps[0].terms)
    for p in ps[1:]:
        for m in list(common):
            if p.terms.get(m) != common[m]:
                del common[m]
    if common:
        k = Poly(common)
        return num_minmax(fn, [p - k for p in ps]) + k
    # pull out a positive common scale
    lead = None
    for p in ps:
        for m in sorted(p.terms):
            if abs(p.terms[m]) not in (0.0,):
                lead = abs(p.terms[m])
                break
        break
    if lead and abs(lead - 1) > 1e-12:
        return num_minmax(fn, [p.div(lead) if isinstance(p, Poly) else p / lead for p in ps]) * lead
    keep.sort(key=vkey)
    pos = all(poly_sign(k) == '+' for k in keep)
    nn = all(poly_sign(k) in ('+', '0+', '0') for k in keep)
    return app(fn, *keep, sign='+' if pos else '0+' if nn else None)


def num_abs(v):
    if not isinstance(v, Poly):
        return abs(v)
    s = poly_sign(v)
    if s in ('+', '0+', '0'):
        return v
    if s in ('-', '0-'):
        return -v
    # normal form: leading coefficient positive; pull the scale out
    m0 = sorted(v.terms)[0]
    c = v.terms[m0]
    q = v.div(c)
    if not isinstance(q, Poly):
        return abs(q * c)
    # |x*y| with x > 0
    if len(q.terms) == 1:
        (m, cc), = q.terms.items()
        posp = tuple((a, p) for a, p in m if ATOMS[a].sign in ('+', '0+'))
        rest = tuple((a, p) for a, p in m if ATOMS[a].sign not in ('+', '0+'))
        if rest:
            return Poly({posp: 1.0}) * app('abs', Poly({rest: 1.0}), sign='0+') * abs(c)
    return app('abs', q, sign='0+') * abs(c)


def num_fn(fn, v):
    """Unary math function."""
    if not isinstance(v, Poly):
        r = getattr(math, fn)(v)
        if isinstance(r, float) and abs(r) < 1e-12:
            return 0.0
        return r
    if fn == 'radians':
        return v * (math.pi / 180)
    if fn == 'degrees':
        return v * (180 / math.pi)
    if fn == 'fabs':
        return num_abs(v)
    if fn == 'sqrt':
        # sqrt(c^2 m^2) etc: scale out positive square factors of a monomial
        if len(v.terms) == 1:
            (m, c), = v.terms.items()
            if c > 0 and all(p % 2 == 0 for a, p in m):
                if all(ATOMS[a].sign in ('+', '0+') for a, p in m):
                    return Poly({tuple((a, p // 2) for a, p in m): math.sqrt(c)}).simp()
        # homogeneous scale: sqrt(k * p) = sqrt(k) * sqrt(p), leading coeff 1
        m0 = sorted(v.terms)[0]
        c = abs(v.terms[m0])
        q = v.div(c)
        return app('sqrt', q, sign='0+') * math.sqrt(c)
    if fn in ('cos', 'sin'):
        # constant shift by multiples of pi/2 and parity
        c0 = v.terms.get((), 0.0)
        k = c0 / (math.pi / 2)
        base = Poly(dict((m, c) for m, c in v.terms.items() if m != ()))
        if abs(k - round(k)) < 1e-9:
            q = int(round(k)) % 4
            lead = base.terms[sorted(base.terms)[0]]
            neg = lead < 0
            b = -base if neg else base
            C = app('cos', b)
            S = app('sin', b)
            if neg:
                S = -S
            tab = {'cos': [C, -S, -C, S], 'sin': [S, C, -S, -C]}
            return tab[fn][q]
        return app(fn, v)
    isint = fn in ('floor', 'ceil')
    if isint:
        at = only_atom(v)
        if at is not None and at.isint:
            return v
    return app(fn, v, isint=isint)


def integral(v):
    """The polynomial if it takes integer values only (up to rounding of its coefficients), else None."""
    if not isinstance(v, Poly):
        return None
    t = {}
    for m, c in v.terms.items():
        if any(p < 0 or int(p) != p or not ATOMS[a].isint for a, p in m):
            return None
        r = round(c)
        if abs(c - r) > 1e-9 * max(1.0, abs(c)):
            return None
        t[m] = float(r)
    return Poly(t).simp()


def only_atom(v):
    if isinstance(v, Poly) and len(v.terms) == 1:
        (m, c), = v.terms.items()
        if c == 1.0 and len(m) == 1 and m[0][1] == 1:
            return ATOMS[m[0][0]]
    return None


def subst(v, mapping):
    """Substitute input symbols (label -> number) in a number."""
    if not isinstance(v, Poly):
        return v
    out = 0
    for m, c in v.terms.items():
        t = c
        for a, p in m:
            at = ATOMS[a]
            if at.fn is None:
                b = mapping.get(a)
                if b is None:
                    b = Poly({((a, 1),): 1.0})
            else:
                args = [subst(x, mapping) if isinstance(x, Poly) else x for x in at.args]
                if at.fn in ('min', 'max'):
                    b = num_minmax(at.fn, args)
                elif at.fn == 'abs':
                    b = num_abs(args[0])
                elif at.fn == 'ite':
                    c = CONDS.get(at.args[0])
                    if c is None:
                        b = app('ite', *args, sign=at.sign)
                    else:
                        q = subst(c[1], mapping)
                        t_ = cond_truth(c[0], q)
                        if t_ is None:
                            key = cond_key(c[0], q)
                            b = ite(key, args[1], args[2])
                        else:
                            b = args[1] if t_ else args[2]
                elif at.fn in ('sqrt', 'cos', 'sin'):
                    b = num_fn(at.fn, args[0])
                else:
                    b = app(at.fn, *args, sign=at.sign, isint=at.isint)
            if p < 0:
                if not isinstance(b, Poly):
                    b = 1.0 / b
                    pw = -p
                else:
                    b = Poly.of(1).div(b)
                    pw = -p
            else:
                pw = p
            if isinstance(pw, float) and pw != int(pw):
                return Top('fractional power')
            for _ in range(int(pw)):
                t = b * t if isinstance(b, Poly) else (t * b)
        out = t + out if isinstance(t, Poly) else (out + t)
    return out


# gated values ----------------------------------------------------------

CONDS = {}      # condition key -> ('neg' | 'eq', Poly)


def ite(key, a, b):
    """Number that is a when the condition holds and b otherwise."""
    if same(a, b):
        return a
    c = CONDS.get(key)
    if c is not None and c[0] == 'neg':
        d = Poly.of(a) - b
        try:
            r = Poly.of(d).div(c[1]) if isinstance(d, Poly) or d else None
        except ZeroDivisionError:
            r = None
        if r is not None and not isinstance(r, Poly):
            # a - b is a multiple of p, and a is chosen when p < 0
            return num_minmax('min' if r > 0 else 'max', [a, b]) if not _is_absarg(a, b) else (num_abs(b) if r > 0 and False else _absof(a, b, r))
    sa, sb = poly_sign(a), poly_sign(b)
    sg = '+' if sa == sb == '+' else '0+' if sa in ('+', '0+', '0') and sb in ('+', '0+', '0') else None
    return app('ite', key, a, b, sign=sg)


def _is_absarg(a, b):
    return vkey(Poly.of(a)) == vkey(-Poly.of(b))


def _absof(a, b, r):
    # a = -b, a - b = 2a ~ r * p, a chosen when p < 0: r > 0 means a < 0 there
    return -num_abs(Poly.of(a).simp()) if r > 0 else num_abs(Poly.of(a).simp())


def cond_truth(kind, q):
    s = poly_sign(q)
    if kind == 'neg':
        return True if s == '-' else False if s in ('+', '0', '0+') else None
    return True if s == '0' else False if s in ('+', '-') else None


def cond_key(kind, q):
    lead = q.terms[sorted(q.terms)[0]]
    if kind == 'neg':
        q = Poly.of(q.div(abs(lead)))
        k = 'neg:%s||%s' % (vkey(q), vkey(-q))
    else:
        q = Poly.of(q.div(lead))
        k = 'eq:' + vkey(q)
    CONDS[k] = (kind, q)
    return k


def solve_eq(p):
    """p == 0 as a substitution {label: value}, or None."""
    for m in sorted(p.terms):
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].fn is None:
            a = m[0][0]
            if sum(1 for mm in p.terms if any(x == a for x, _ in mm)) == 1 and not _mentions(p, a, m):
                c = p.terms[m]
                rest = Poly(dict((mm, cc) for mm, cc in p.terms.items() if mm != m))
                return {a: (-rest).div(c) if rest.terms else 0}
    return None


def _mentions(p, a, skip):
    for m in p.terms:
        if m == skip:
            continue
        for x, _ in m:
            if a in x:
                return True
    return False


# identity testing ------------------------------------------------------

class NoEval(Exception):
    pass


def _hashval(key, lo=0.3, hi=2.7):
    import hashlib
    h = int(hashlib.sha256(key.encode()).hexdigest()[:12], 16) / float(16 ** 12)
    return lo + h * (hi - lo)


def numeval(v, trial):
    """Value of a symbolic number at a pseudo-random point (used only to decide
    whether two symbolic expressions with different normal forms denote the
    same function)."""
    if isinstance(v, bool):
        return float(v)
    if isinstance(v, (int, float)):
        return float(v)
    if not isinstance(v, Poly):
        raise NoEval()
    tot = 0.0
    for m, c in v.terms.items():
        t = c
        for a, p in m:
            x = atom_value(ATOMS[a], trial)
            if x == 0 and p < 0:
                raise NoEval()
            t *= x ** p
        tot += t
    return tot


def atom_value(at, trial):
    if at.fn is None:
        r = _hashval('%s#%d' % (at.key, trial))
        if trial >= 6:
            r *= 10.0 ** round(_hashval('%s#e%d' % (at.key, trial), -3.4, 4.4))
        if at.sign == '-':
            r = -r
        elif at.sign not in ('+', '0+') and _hashval('%s#s%d' % (at.key, trial), 0, 1) < 0.5:
            r = -r
        return float(round(r * 4) + (1 if at.sign == '+' else 0)) if at.isint else r
    if at.fn == 'ite':
        c = CONDS.get(at.args[0])
        if c is None:
            raise NoEval()
        q = numeval(c[1], trial)
        t = q < 0 if c[0] == 'neg' else abs(q) < 1e-12
        SAMPLED.setdefault(at.key, set()).add(t)
        return numeval(at.args[1] if t else at.args[2], trial)
    args = []
    for x in at.args:
        args.append(numeval(x, trial) if is_num(x) else None)
    f = at.fn
    try:
        if None not in args:
            if f == 'min':
                return min(args)
            if f == 'max':
                return max(args)
            if f == 'abs':
                return abs(args[0])
            if f == 'inv':
                return 1.0 / args[0]
            if f in ('sqrt', 'cos', 'sin', 'tan', 'asin', 'acos', 'atan', 'floor', 'ceil', 'exp', 'log') and len(args) == 1:
                return float(getattr(math, f)(args[0]))
            if f == 'atan2':
                return math.atan2(*args)
            if f == 'mod':
                return args[0] % args[1]
            if f in ('trunc', 'int'):
                return float(int(args[0]))
            if f == 'round':
                return float(round(args[0], int(args[1]))) if len(args) > 1 else float(round(args[0]))
            if f == 'pow10':
                return 10.0 ** args[0]
            if f == 'pow':
                return float(args[0] ** args[1])
    except (ValueError, ZeroDivisionError, OverflowError):
        raise NoEval()
    # uninterpreted: congruent in its (evaluated) arguments
    key = f + '(' + ','.join('%.9g' % a if a is not None else vkey(x) for a, x in zip(args, at.args)) + ')#%d' % trial
    r = _hashval(key)
    if at.sign in ('+', '0+'):
        return r
    if at.isint:
        return float(round(r * 4))
    return r


SAMPLED = {}


def find_ite(v):
    """Keys of the gated sub-expressions of a number."""
    out = {}
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, Poly):
            for m in x.terms:
                for a, p in m:
                    at = ATOMS[a]
                    if at.fn == 'ite':
                        out[at.key] = at
                    todo.extend(y for y in at.args if isinstance(y, Poly))
    return out


def equiv(a, b, trials=6):
    """True: same value (equal normal forms, or indistinguishable at sampled
    points covering both outcomes of every condition inside).  False: different.
    None: cannot tell."""
    if same(a, b):
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        rs = [equiv(x, y, trials) for x, y in zip(a, b)]
        return False if False in rs else None if None in rs else True
    if isinstance(a, Choice) or isinstance(b, Choice):
        xs, ys = alts(a), alts(b)
        return all(any(equiv(x, y, trials) for y in ys) for x in xs) and all(any(equiv(x, y, trials) for x in xs) for y in ys)
    if isinstance(a, bool) or isinstance(b, bool):
        return False
    if not (is_num(a) and is_num(b)):
        return False
    if not isinstance(a, Poly) and not isinstance(b, Poly):
        return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
    gates = dict(find_ite(a))
    gates.update(find_ite(b))
    for g in gates:
        SAMPLED[g] = set()
    n = 0
    for t in range(400 if gates else trials * 3):
        try:
            x, y = numeval(a, t), numeval(b, t)
        except NoEval:
            continue
        if isinstance(x, complex) or isinstance(y, complex):
            continue
        if abs(x - y) > 1e-8 * max(1.0, abs(x), abs(y)) * (100.0 if t >= 6 else 1.0):
            return False
        n += 1
        if n >= trials and (not gates or n >= 60 and all(len(SAMPLED[g]) == 2 for g in gates)):
            return True
    if gates:
        return None if n == 0 or not all(len(SAMPLED[g]) == 2 for g in gates) else True
    return n > 0


OPAQUE = frozenset(['len', 'find', 'count', 'index', 'hash', 'id', 'idx', 'sum', 'ord', 'min?', 'max?'])


def opaque_fns(v, out=None):
    """Names of functions in the value the analysis does not interpret."""
    if out is None:
        out = set()
    if isinstance(v, tuple):
        for x in v:
            opaque_fns(x, out)
    elif isinstance(v, Choice):
        for x in v.vals:
            opaque_fns(x, out)
    elif isinstance(v, Poly):
        for m in v.terms:
            for a, p in m:
                at = ATOMS[a]
                if at.fn is not None:
                    if at.fn in OPAQUE:
                        out.add(at.fn)
                    for x in at.args:
                        opaque_fns(x, out)
    return out
