"""Models of the builtins and library functions the project uses."""

import copy as _copy
import itertools
import math
import operator
import os
import re as _re
import string as _string

from .values import *
from .state import *
from . import absre

NUMCHARS = DIGITS + '.-'
STR_CONST_METHODS = {'upper', 'lower', 'strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'splitlines', 'startswith',
                     'endswith', 'find', 'rfind', 'index', 'replace', 'join', 'format', 'isdigit', 'isalpha', 'isalnum',
                     'isspace', 'count', 'zfill', 'title', 'capitalize', 'encode', 'partition', 'rpartition',
                     'ljust', 'rjust', 'center', 'swapcase', 'isupper', 'islower', 'isnumeric', 'isdecimal', 'translate'}

REFLECT = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__', 'Mod': '__mod__',
           'FloorDiv': '__floordiv__', 'Pow': '__pow__'}
CMPM = {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}
SWAP = {'Eq': 'Eq', 'NotEq': 'NotEq', 'Lt': 'Gt', 'LtE': 'GtE', 'Gt': 'Lt', 'GtE': 'LtE'}
PYOP = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv, 'Mod': operator.mod,
        'FloorDiv': operator.floordiv, 'Pow': operator.pow, 'BitOr': operator.or_, 'BitAnd': operator.and_,
        'BitXor': operator.xor, 'LShift': operator.lshift, 'RShift': operator.rshift}
PYCMP = {'Eq': operator.eq, 'NotEq': operator.ne, 'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt,
         'GtE': operator.ge}


class Model(object):
    def __init__(self, interp):
        self.I = interp
        self.table = {}
        for n in dir(self):
            if n.startswith('b_'):
                self.table[n[2:]] = Builtin(n[2:], getattr(self, n))
        for n in ('int', 'float', 'str', 'bool', 'list', 'dict', 'tuple', 'set', 'frozenset', 'object', 'type', 'bytes',
                  'property', 'staticmethod', 'classmethod', 'complex', 'bytearray', 'slice'):
            self.table[n] = BCls(n)
        self.table['unicode'] = None
        del self.table['unicode']
        self.table['NotImplemented'] = Top('NotImplemented')
        self.table['__name__'] = '__main__'
        self.ext = {}
        self.build_ext()

    @property
    def st(self):
        return self.I.st

    # ---------------------------------------------------------------- helpers
    def distribute(self, args, f):
        """Apply f over the product of alternatives (pure functions)."""
        for i, a in enumerate(args):
            if isinstance(a, Choice):
                res = []
                for x in a.vals:
                    r = self.try_pure(lambda: self.distribute(args[:i] + [x] + args[i + 1:], f))
                    if r is not MISSING:
                        res.append(r)
                if not res:
                    self.I.raise_('TypeError', 'no alternative succeeds')
                return choice(res)
        return f(*args)

    def try_pure(self, thunk):
        """Evaluate; a definite raise becomes a possible raise (returns MISSING)."""
        from .interp import PyRaise
        try:
            return thunk()
        except PyRaise as ex:
            if self.I.pending:
                self.I.pending[-1].append((self.st.copy(), ex.val))
            return MISSING

    # ---------------------------------------------------------------- arithmetic
    def binop(self, op, a, b):
        I = self.I
        if isinstance(a, Choice) or isinstance(b, Choice):
            return self.distribute([a, b], lambda x, y: self.binop(op, x, y))
        if isinstance(a, Top) or isinstance(b, Top):
            I.may_raise_any('operation on unknown')
            return a if isinstance(a, Top) else b
        if isinstance(a, BTerm):
            a = Choice((True, False))
            return self.binop(op, a, b)
        if isinstance(b, BTerm):
            b = Choice((True, False))
            return self.binop(op, a, b)
        if isinstance(a, Ext) or isinstance(b, Ext):
            return Ext('(%s %s %s)' % (show(a), op, show(b)))
        if is_num(a) and is_num(b):
            return self.num_binop(op, a, b)
        if op == 'Mod' and is_str(a):
            return self.percent(a, b)
        if op == 'Add' and is_str(a) and is_str(b):
            return self.concat([a, b])
        if op in ('Add', 'Mod', 'Mult') and (isinstance(a, bytes) or isinstance(b, bytes)) and is_const(a) and is_const(b):
            return self.pure(lambda: PYOP[op](a, b))
        if op == 'Add' and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if op == 'Mult':
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and not isinstance(y, bool):
                    if isinstance(x, str):
                        return x * y
                    if isinstance(x, SStr):
                        return self.concat([x] * y) if y > 0 else ''
                    if isinstance(x, tuple):
                        return x * y
                    if isinstance(x, Ref) and self.st.get(x).kind == 'list':
                        return I.new_list(self.st.get(x).items * y)
                if isinstance(y, Poly) and is_str(x):
                    if isinstance(x, str) and len(set(x)) == 1:
                        return hole('%s*%s' % (x, show(y)), x, 0)
                    return I.top('string repetition')
                if isinstance(y, Poly) and isinstance(x, Ref) and self.st.get(x).kind == 'list':
                    return I.new_list([Opt(choice([i.v if isinstance(i, Opt) else i for i in self.st.get(x).items]) if self.st.get(x).items else None, True)])
        if isinstance(a, Ref):
            o = self.st.get(a)
            if o.kind == 'list' and op == 'Add':
                if isinstance(b, Ref) and self.st.get(b).kind == 'list':
                    return I.new_list(list(o.items) + list(self.st.get(b).items))
                I.raise_('TypeError', 'list + non-list')
            if o.kind == 'dict' and op == 'BitOr' and isinstance(b, Ref) and self.st.get(b).kind == 'dict':
                r = self.shallow(a)
                self.dict_update(r, [b], {})
                return r
            if o.kind == 'obj':
                cls = o.cls
                if isinstance(cls, Cls):
                    m = I.class_attr(cls, REFLECT.get(op, '__none__'))
                    if m is not None:
                        return I.call(Bound(m, a), [b], {})
            if o.kind == 'set':
                ib = self.iterate(b)
                if op in ('Sub', 'BitOr', 'BitAnd', 'BitXor') and not (isinstance(b, Ref) and self.st.get(b).kind == 'set'):
                    if isinstance(b, Ref) and self.st.get(b).kind != 'list' or isinstance(b, Ref) and self.st.get(b).sub == 'view':
                        ib = None
                    else:
                        I.raise_('TypeError', 'unsupported operand types for %s' % op)
                if op in ('Sub', 'BitOr', 'BitAnd', 'BitXor') and (ib is None or any(isinstance(x, Opt) for x in list(ib) + list(o.d.values()))):
                    return I.top('set %s' % op) if ib is None or op != 'BitOr' else self.st.alloc(self.set_or(o, ib))
                if op == 'BitXor' and ib is not None:
                    h = HSet()
                    keys = set(vkey(x) for x in ib)
                    for k, v in list(o.d.items()) + [(vkey(x), x) for x in ib]:
                        if (k in keys) != (k in o.d):
                            h.d[k] = v
                    return self.st.alloc(h)
                if op in ('Sub', 'BitOr', 'BitAnd') and ib is not None:
                    h = HSet()
                    keys = set(vkey(x) for x in ib)
                    for k, v in o.d.items():
                        if op == 'BitOr' or (op == 'Sub') != (k in keys):
                            h.d[k] = v
                    if op == 'BitOr':
                        for x in ib:
                            h.d[vkey(x)] = x
                    return self.st.alloc(h)
        if isinstance(b, Ref):
            o = self.st.get(b)
            if o.kind == 'obj' and isinstance(o.cls, Cls):
                m = I.class_attr(o.cls, REFLECT.get(op, '__none__').replace('__', '__r', 1))
                if m is not None:
                    return I.call(Bound(m, b), [a], {})
        I.raise_('TypeError', 'unsupported operand types for %s: %s and %s' % (op, I.type_name(a), I.type_name(b)))

    def set_or(self, o, ib):
        h = HSet()
        h.d.update(o.d)
        for x in ib:
            h.d.setdefault(vkey(x.v if isinstance(x, Opt) else x), x)
        return h

    def lift(self, r):
        """A Python value as an abstract one."""
        if isinstance(r, list):
            return self.I.new_list([self.lift(x) for x in r])
        if isinstance(r, tuple):
            return tuple(self.lift(x) for x in r)
        if isinstance(r, dict):
            return self.I.new_dict([(self.lift(k), self.lift(v)) for k, v in r.items()])
        if isinstance(r, (set, frozenset)):
            h = HSet()
            for x in sorted(r, key=repr):
                h.d[vkey(x)] = x
            return self.st.alloc(h)
        if isinstance(r, (bool, int, float, str, bytes)) or r is None:
            return r
        return self.I.top('value')

    def lower(self, v):
        """The Python value an abstract one stands for, if it stands for just one; MISSING otherwise."""
        if v is None or isinstance(v, (bool, int, float, str, bytes)):
            return v
        if isinstance(v, tuple):
            t = [self.lower(x) for x in v]
            return MISSING if any(x is MISSING for x in t) else tuple(t)
        if isinstance(v, SliceV):
            t = [self.lower(x) for x in (v.a, v.b, v.c)]
            return MISSING if any(x is MISSING for x in t) else slice(*t)
        if isinstance(v, Ref):
            o = self.st.get(v)
            if o.kind == 'list' and o.sub == 'list' and not any(isinstance(i, Opt) for i in o.items):
                t = [self.lower(x) for x in o.items]
                return MISSING if any(x is MISSING for x in t) else t
            if o.kind == 'dict' and o.open is None and type(o).__name__ == 'HDict':
                r = {}
                for k, x in o.d.values():
                    k, x = self.lower(k), MISSING if x is MISSING else self.lower(x)
                    if k is MISSING or x is MISSING:
                        return MISSING
                    r[k] = x
                return r
        return MISSING

    def pure(self, thunk):
        """A Python operation on fixed values."""
        try:
            return self.lift(thunk())
        except Exception as e:
            self.I.raise_(type(e).__name__, str(e))

    def concrete_method(self, t, v, name):
        """Method `name` of a fixed builtin value, or of one the analysis does not model."""
        if not hasattr(t, name):
            return MISSING
        if isinstance(v, t) and not callable(getattr(v, name)):
            return self.lift(getattr(v, name))

        def run(a, k):
            args = [self.lower(x) for x in a]
            kw = dict((n, self.lower(x)) for n, x in k.items())
            if isinstance(v, t) and not any(x is MISSING for x in args) and not any(x is MISSING for x in kw.values()):
                return self.pure(lambda: getattr(v, name)(*args, **kw))
            return self.I.top('%s.%s' % (t.__name__, name))
        return Builtin('%s.%s' % (t.__name__, name), run)

    def num_binop(self, op, a, b):
        if not isinstance(a, Poly) and not isinstance(b, Poly):
            try:
                r = PYOP[op](a, b)
            except ZeroDivisionError:
                self.I.raise_('ZeroDivisionError')
            except (TypeError, ValueError, OverflowError) as e:
                self.I.raise_(type(e).__name__, str(e))
            if isinstance(r, float) and math.isfinite(r) and r != 0:
                r = float('%.14g' % r)
            if isinstance(r, complex):
                return self.I.top('complex')
            return r
        if op == 'Add':
            return a + b
        if op == 'Sub':
            return a - b
        if op == 'Mult':
            return a * b
        if op == 'Div':
            if not isinstance(b, Poly) and b == 0:
                self.I.raise_('ZeroDivisionError')
            if poly_sign(b) is None or poly_sign(b) in ('0+', '0-'):
                pass
            return Poly.of(a).div(b)
        if op == 'Pow':
            if isinstance(b, (int, float)):
                if b == int(b) and 0 <= b <= 6:
                    r = 1
                    for _ in range(int(b)):
                        r = a * r
                    return r
                if b == 0.5:
                    return num_fn('sqrt', a)
                if b == -1:
                    return Poly.of(1).div(a)
            if not isinstance(a, Poly) and a == 10:
                return app('pow10', b, sign='+')
            return app('pow', Poly.of(a).simp(), b)
        if op == 'FloorDiv':
            return app('floor', Poly.of(a).div(b), isint=True)
        if op == 'Mod':
            return app('mod', a, b, sign='0+' if poly_sign(b) == '+' else None)
        return self.I.top('numeric operator %s' % op)

    # ---------------------------------------------------------------- comparison
    def compare(self, op, a, b):
        I = self.I
        if op in ('Is', 'IsNot'):
            r = self.is_(a, b)
            return I.unop(_NOT, r) if op == 'IsNot' else r
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            return I.unop(_NOT, r) if op == 'NotIn' else r
        if isinstance(a, Choice) or isinstance(b, Choice):
            rs = []
            for x in alts(a):
                for y in alts(b):
                    r = self.try_pure(lambda: self.compare(op, x, y))
                    if r is not MISSING:
                        rs.append(r)
            if not rs:
                I.raise_('TypeError', 'comparison')
            return self.join_bool(rs)
        if op == 'NotEq':
            if isinstance(a, Ref) and self.st.get(a).kind == 'obj' and isinstance(self.st.get(a).cls, Cls):
                m = I.class_attr(self.st.get(a).cls, '__ne__')
                if m is not None:
                    return I.call(Bound(m, a), [b], {})
            return I.unop(_NOT, self.compare('Eq', a, b))
        if isinstance(a, Top) or isinstance(b, Top):
            return BTerm('cmp(%s,%s,%s,%s)' % (op, vkey(a), vkey(b), id(a) if isinstance(a, Top) else id(b)))
        if op == 'Eq':
            return self.eq(a, b)
        # ordering
        if is_num(a) and is_num(b):
            if not isinstance(a, Poly) and not isinstance(b, Poly):
                return PYCMP[op](a, b)
            if op == 'Lt':
                return self.neg(a - b if isinstance(a, Poly) else Poly.of(a) - b)
            if op == 'Gt':
                return self.neg(Poly.of(b) - a)
            if op == 'GtE':
                return I.unop(_NOT, self.neg(Poly.of(a) - b))
            if op == 'LtE':
                return I.unop(_NOT, self.neg(Poly.of(b) - a))
        if isinstance(a, str) and isinstance(b, str):
            return PYCMP[op](a, b)
        if is_str(a) and is_str(b):
            return BTerm('scmp(%s,%s,%s)' % (op, vkey(a), vkey(b)))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.tuple_cmp(op, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref) and self.st.get(a).kind == self.st.get(b).kind == 'list' \
                and self.st.get(a).sub == self.st.get(b).sub == 'list':
            if any(isinstance(i, Opt) for i in self.st.get(a).items + self.st.get(b).items):
                return BTerm('lcmp(%s,%s,%s)' % (op, vkey(a), vkey(b)))
            return self.tuple_cmp(op, tuple(self.st.get(a).items), tuple(self.st.get(b).items))
        if isinstance(a, Ref) and isinstance(b, Ref) and self.st.get(a).kind == self.st.get(b).kind == 'set':
            da, db = self.st.get(a).d, self.st.get(b).d
            if any(isinstance(i, Opt) for i in list(da.values()) + list(db.values())):
                return BTerm('setcmp(%s,%s,%s)' % (op, vkey(a), vkey(b)))
            return PYCMP[op](set(da), set(db))
        if isinstance(a, bytes) and isinstance(b, bytes):
            return PYCMP[op](a, b)
        for x, y, o2 in ((a, b, op), (b, a, SWAP[op])):
            if isinstance(x, Ref) and self.st.get(x).kind == 'obj' and isinstance(self.st.get(x).cls, Cls):
                m = I.class_attr(self.st.get(x).cls, CMPM[o2])
                if m is not None:
                    return I.call(Bound(m, x), [y], {})
        if isinstance(a, Ext) or isinstance(b, Ext) or isinstance(a, BTerm) or isinstance(b, BTerm):
            return BTerm('cmp(%s,%s,%s)' % (op, vkey(a), vkey(b)))
        I.raise_('TypeError', '%s not supported between %s and %s' % (op, I.type_name(a), I.type_name(b)))

    def tuple_cmp(self, op, a, b):
        for x, y in zip(a, b):
            e = self.I.truth(self.eq(x, y))
            if e is True:
                continue
            if e is False:
                return self.compare(op if op not in ('LtE', 'GtE') else op[:2], x, y)
            return BTerm('tcmp(%s,%s,%s)' % (op, vkey(a), vkey(b)))
        return PYCMP[op](len(a), len(b))

    def neg(self, p):
        """p < 0"""
        if not isinstance(p, Poly):
            return p < 0
        s = poly_sign(p)
        if s == '-':
            return True
        if s in ('+', '0', '0+'):
            return False
        lead = abs(p.terms[sorted(p.terms)[0]])
        q = Poly.of(p.div(lead))
        k = 'neg:%s||%s' % (vkey(q), vkey(-q))
        CONDS[k] = ('neg', q)
        return BTerm(k)

    def join_bool(self, rs):
        ts = [self.I.truth(r) for r in rs]
        if all(t is True for t in ts):
            return True
        if all(t is False for t in ts):
            return False
        ks = sorted(set(vkey(r) for r in rs))
        if len(ks) == 1:
            return rs[0]
        return BTerm('or(%s)' % ','.join(ks))

    def is_(self, a, b):
        if isinstance(a, Choice) or isinstance(b, Choice):
            return self.join_bool([self.is_(x, y) for x in alts(a) for y in alts(b)])
        if isinstance(a, Top) or isinstance(b, Top):
            return BTerm('is(%s,%s,%s)' % (vkey(a), vkey(b), id(a) if isinstance(a, Top) else id(b)))
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, BTerm) or isinstance(b, BTerm):
                x, y = (a, b) if isinstance(a, BTerm) else (b, a)
                if isinstance(y, bool):
                    return x if y else x.flip()
                return False
            return a is b
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.addr == b.addr
        if isinstance(a, Ref) != isinstance(b, Ref):
            return False
        if isinstance(a, (Cls, BCls)) and isinstance(b, (Cls, BCls)):
            return same(a, b)
        return self.eq(a, b)

    def eq(self, a, b):
        I = self.I
        if isinstance(a, Choice) or isinstance(b, Choice):
            return self.join_bool([self.eq(x, y) for x in alts(a) for y in alts(b)])
        if isinstance(a, Top) or isinstance(b, Top):
            return BTerm('eq(%s,%s,%s)' % (vkey(a), vkey(b), id(a) if isinstance(a, Top) else id(b)))
        if isinstance(a, BTerm) or isinstance(b, BTerm):
            if isinstance(a, BTerm) and isinstance(b, bool):
                return a if b else a.flip()
            if isinstance(b, BTerm) and isinstance(a, bool):
                return b if a else b.flip()
            if isinstance(a, BTerm) and isinstance(b, BTerm) and vkey(a) == vkey(b):
                return True
            return BTerm('eq(%s,%s)' % (vkey(a), vkey(b)))
        if is_num(a) and is_num(b):
            if not isinstance(a, Poly) and not isinstance(b, Poly):
                if isinstance(a, float) or isinstance(b, float):
                    return a == b or (abs(a - b) < 1e-12 * max(abs(a), abs(b)))
                return a == b
            d = Poly.of(a) - b
            if not isinstance(d, Poly):
                return abs(d) < 1e-12
            s = poly_sign(d)
            if s in ('+', '-'):
                return False
            k = I.eqkey(d)
            q = k[3:]
            nq = 'eq:' + vkey(-Poly.of(d))
            return BTerm(k)
        if is_str(a) and is_str(b):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            return self.str_eq(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                r = I.bool_and(r, self.eq(x, y))
                if r is False:
                    return False
            return r
        if isinstance(a, Ref) and self.nt_vals(a) is not None or isinstance(b, Ref) and self.nt_vals(b) is not None:
            x, y = [self.nt_vals(z) if isinstance(z, Ref) else z if isinstance(z, tuple) else None for z in (a, b)]
            return self.eq(x, y) if x is not None and y is not None else False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref):
                o = self.st.get(x)
                if o.kind == 'obj' and isinstance(o.cls, Cls):
                    m = I.class_attr(o.cls, '__eq__')
                    if m is not None:
                        return I.call(Bound(m, x), [y], {})
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.addr == b.addr:
                return True
            oa, ob = self.st.get(a), self.st.get(b)
            if oa.kind == 'list' and ob.kind == 'list' and oa.sub == 'list' and ob.sub == 'list':
                if any(isinstance(i, Opt) for i in oa.items + ob.items):
                    return BTerm('eq(%s,%s)' % (vkey(a), vkey(b)))
                return self.eq(tuple(oa.items), tuple(ob.items))
            if oa.kind == 'dict' and ob.kind == 'dict':
                if set(oa.d) != set(ob.d):
                    return False
                r = True
                for k in oa.d:
                    r = I.bool_and(r, self.eq(oa.d[k][1], ob.d[k][1]))
                return r
            if oa.kind == 'set' and ob.kind == 'set':
                return set(oa.d) == set(ob.d)
            return False
        if isinstance(a, Ref) or isinstance(b, Ref):
            return False
        if isinstance(a, Ext) or isinstance(b, Ext):
            if vkey(a) == vkey(b):
                return True
            if isinstance(a, Ext) and isinstance(b, Ext) or is_const(a) and a is not None or is_const(b) and b is not None:
                return BTerm('eq(%s,%s)' % (vkey(a), vkey(b)))
            return False
        if is_const(a) and is_const(b):
            return a == b
        if type(a) is type(b):
            return vkey(a) == vkey(b)
        return False

    def nt_vals(self, v):
        h = self.st.get(v)
        nt = self.I.class_attr(h.cls, '%nt_fields') if h.kind == 'obj' and isinstance(h.cls, Cls) and self.I.class_attr(h.cls, '__eq__') is None else None
        return None if nt is None else tuple(h.attrs.get(n) for n in nt)

    def str_eq(self, a, b):
        if vkey(a) == vkey(b):
            return True
        if not possible_equal(toks(a), toks(b)):
            return False
        return BTerm('streq(%s,%s)' % tuple(sorted((vkey(a), vkey(b)))))

    def contains(self, c, x):
        I = self.I
        if isinstance(c, Choice):
            return self.join_bool([self.contains(y, x) for y in c.vals])
        if isinstance(c, Top):
            return BTerm('in(%s,%s,%s)' % (vkey(x), vkey(c), id(c)))
        if is_str(c):
            if isinstance(x, Choice):
                return self.join_bool([self.contains(c, y) for y in x.vals])
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            if is_str(x):
                return self.str_contains(c, x)
            if x is None or is_num(x):
                I.raise_('TypeError', "'in <string>' requires string")
            return BTerm('in(%s,%s)' % (vkey(x), vkey(c)))
        if isinstance(c, Ref):
            o = self.st.get(c)
            if o.kind == 'dict':
                if isinstance(x, Choice):
                    return self.join_bool([self.contains(c, y) for y in x.vals])
                k = vkey(x)
                if k in o.d:
                    v = o.d[k][1]
                    if v is MISSING or isinstance(v, Choice) and MISSING in v.vals:
                        return BTerm('in(%s,%s)' % (k, vkey(c)))
                    return True
                if o.open is not None:
                    return BTerm('in(%s,%s)' % (k, vkey(c)))
                rs = [self.eq(x, kk) for kk, _ in o.d.values()]
                return self.any_(rs, 'in(%s,%s)' % (k, vkey(c)))
            if o.kind == 'obj' and isinstance(o.cls, Cls):
                m = I.class_attr(o.cls, '__contains__')
                if m is not None:
                    return I.call(Bound(m, c), [x], {})
        its = self.iterate(c)
        if its is None:
            return BTerm('in(%s,%s)' % (vkey(x), vkey(c)))
        rs = []
        for i in its:
            r = self.eq(x, i.v if isinstance(i, Opt) else i)
            if isinstance(i, Opt) and I.truth(r) is True:
                r = BTerm('optin(%s)' % vkey(i))
            rs.append(r)
        return self.any_(rs, 'in(%s,%s)' % (vkey(x), vkey(c)))

    def any_(self, rs, k):
        ts = [self.I.truth(r) for r in rs]
        if True in ts:
            return True
        un = [r for r, t in zip(rs, ts) if t is None]
        if not un:
            return False
        if len(un) == 1 and isinstance(un[0], BTerm):
            return un[0]
        return BTerm(k)

    def str_contains(self, c, x):
        ct, xt = toks(c), toks(x)
        if isinstance(x, str):
            # definite: occurs in a literal piece
            for p in c.parts if isinstance(c, SStr) else (c,):
                if isinstance(p, str) and x in p:
                    return True
            # impossible: some char of x occurs nowhere
            for ch in x:
                if not any((t == ch) if isinstance(t, str) else (ch in t.chars) for t in ct):
                    return False
            # try all alignments
            if len(x) == 1:
                return BTerm('strin(%s,%s)' % (vkey(x), vkey(c)))
            for i in range(len(ct)):
                if possible_prefix(ct[i:], list(x), True):
                    return BTerm('strin(%s,%s)' % (vkey(x), vkey(c)))
            return False
        return BTerm('strin(%s,%s)' % (vkey(x), vkey(c)))

    # ---------------------------------------------------------------- strings
    def concat(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Choice):
                # distribute
                return self.distribute(list(parts), lambda *ps: self.concat(list(ps)))
            if isinstance(p, Top):
                return p
            if isinstance(p, Ext):
                out.append(Hole('ext:' + p.path, [chr(i) for i in range(32, 127)], 0))
                continue
            if isinstance(p, str):
                out.append(p)
            elif isinstance(p, SStr):
                out.extend(p.parts)
            else:
                self.I.raise_('TypeError', 'can only concatenate str (not %s)' % self.I.type_name(p))
        return SStr(out).simp()

    def digit_text(self, v, flags, width, prec, conv):
        """Text of a number made of labelled digits, when the format shows all of them."""
        if conv not in 'fFdigG':
            return None
        dx = digit_expansion(v)
        if dx is None:
            return None
        neg, ds = dx
        if conv in 'gG':
            # shortest form: all digits are shown, none is rounded away
            p = (6 if prec is None else int(prec)) or 1
            hi, lo = max(ds), min(ds)
            if '#' in flags or '0' in DIGIT_ATOMS[ds[hi]] or lo < 0 and '0' in DIGIT_ATOMS[ds[lo]] or not -4 <= hi < p or hi - lo + 1 > p or hi - min(lo, 0) + 1 > p and hi >= 0:
                return None
            conv, prec = 'f', str(max(0, -lo))
        nd = (6 if prec is None else int(prec)) if conv in 'fF' else 0
        if min(ds) < -nd or conv in 'di' and prec is not None:
            return None
        top = max(max(ds), 0)
        if '0' in DIGIT_ATOMS[ds[max(ds)]] and max(ds) > 0:
            return None           # the number of integer digits is not known
        def cell(k):
            return Hole(ds[k], DIGIT_ATOMS[ds[k]], 1, 1, sym(ds[k])) if k in ds else '0'
        body = [cell(k) for k in range(top, -1, -1)]
        if nd:
            body += ['.'] + [cell(k) for k in range(-1, -nd - 1, -1)]
        if neg and all('0' in DIGIT_ATOMS[d] for d in ds.values()):
            return None
        sign = ['-'] if neg else ['+'] if '+' in flags else [' '] if ' ' in flags else []
        w = int(width) if width else 0
        pad = w - len(sign) - len(body)
        if pad > 0:
            if '-' in flags:
                return SStr(sign + body + [' ' * pad]).simp()
            if '0' in flags or (width or '').startswith('0'):
                return SStr(sign + ['0' * pad] + body).simp()
            return SStr([' ' * pad] + sign + body).simp()
        return SStr(sign + body).simp()

    def num_text(self, v, spec):
        """Text of an abstract number."""
        nonneg = poly_sign(v) in ('+', '0+', '0')
        at = only_atom(v)
        isint = at is not None and at.isint or spec in ('d',) or (spec.endswith('d') if spec else False)
        chars = DIGITS + ('' if nonneg else '-') + ('' if isint else '.')
        first = DIGITS + ('' if nonneg else '-')
        lab = show(v) if not spec else '%s%%%s' % (show(v), spec)
        return hole(lab, chars, 1, None, val=v, first=first)

    def to_str(self, v):
        I = self.I
        if isinstance(v, Choice):
            return self.distribute([v], self.to_str)
        if is_str(v):
            return v
        if isinstance(v, Top):
            return v
        if is_const(v) and not isinstance(v, tuple):
            return str(v)
        if isinstance(v, Poly):
            return self.num_text(v, '')
        if isinstance(v, Ref):
            o = self.st.get(v)
            if o.kind == 'obj' and isinstance(o.cls, Cls):
                for n in ('__str__', '__repr__'):
                    m = I.class_attr(o.cls, n)
                    if m is not None:
                        return I.call(Bound(m, v), [], {})
            if o.kind == 'obj' and isinstance(o.cls, BCls) and o.cls.name in _excs() and len(o.attrs.get('args', ())) == 1:
                return self.to_str(o.attrs['args'][0])
            if o.kind == 'obj' and (isinstance(o.cls, BCls) and o.cls.name in _excs() or isinstance(o.cls, Cls) and any(isinstance(c, BCls) and c.name in _excs() for c in o.cls.mro)):
                ar = o.attrs.get('args', ())
                return '' if not ar else self.to_str(ar[0]) if len(ar) == 1 else self.b_repr([ar], {})
            r = self.b_repr([v], {}) if o.kind in ('list', 'dict') else None
            return r if r is not None else hole('str(@%d)' % v.addr, [chr(i) for i in range(32, 127)])
        if isinstance(v, tuple):
            r = self.b_repr([v], {})
            if r is not None:
                return r
        if isinstance(v, BTerm):
            return Choice(('True', 'False'))
        return hole('str(%s)' % show(v)[:60], [chr(i) for i in range(32, 127)])

    def format_value(self, v, spec):
        if isinstance(v, Choice):
            return self.distribute([v], lambda x: self.format_value(x, spec))
        if spec is None:
            return self.I.top('dynamic format spec')
        if isinstance(v, Top):
            return v
        if spec == '':
            return self.to_str(v)
        if isinstance(v, Poly):
            m = _re.match(r'^([0+ -]*)(\d+)?(?:\.(\d+))?([fFd])$', spec)
            if m and '>' not in spec:
                r = self.digit_text(v, m.group(1), m.group(2), m.group(3), m.group(4))
                if r is not None:
                    return r
            return self.num_text(v, spec)
        if is_const(v):
            try:
                return format(v, spec)
            except (ValueError, TypeError) as e:
                self.I.raise_(type(e).__name__, str(e))
        if is_str(v):
            if _re.match(r'^[<>^]?0?$', spec) or spec == 's':
                return v
            m = _re.match(r'^(.?)([<>^=])?(0?)(\d+)s?$', spec)
            if m:
                return self.pad(v, int(m.group(4)), ' ', 'l')
            return self.I.top('format spec %s' % spec)
        if v is None or isinstance(v, (Ref, tuple)):
            self.I.raise_('TypeError', 'unsupported format string')
        return self.I.top('format of %s' % show(v)[:40])

    def pad(self, v, width, ch, side):
        if isinstance(v, str):
            return v.ljust(width, ch) if side == 'l' else v.rjust(width, ch)
        if v.minlen() >= width:
            return v
        if v.maxlen() == v.minlen():
            p = ch * (width - v.minlen())
            return self.concat([v, p] if side == 'l' else [p, v])
        p = hole('pad(%s,%d,%s)' % (vkey(v), width, ch), ch, 0)
        return self.concat([v, p] if side == 'l' else [p, v])

    def percent(self, f, args):
        I = self.I
        if not isinstance(f, str):
            return I.top('dynamic format string')
        isd = isinstance(args, Ref) and self.st.get(args).kind == 'dict'
        seq = list(args) if isinstance(args, tuple) else [args]
        parts = []
        pos = 0
        used = 0
        rx = _re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\d+|\*)?(?:\.(\d+|\*))?[hlL]?([diouxXeEfFgGcrs%])')
        for m in rx.finditer(f):
            parts.append(f[pos:m.start()])
            pos = m.end()
            name, flags, width, prec, conv = m.groups()
            if conv == '%':
                parts.append('%')
                continue
            if name is not None:
                if not isd:
                    I.raise_('TypeError', 'format requires a mapping')
                v = self.getitem(args, name)
            else:
                dyn = []
                for q in (width, prec):
                    if q == '*':
                        if used >= len(seq):
                            I.raise_('TypeError', 'not enough arguments for format string')
                        q = seq[used]
                        used += 1
                        if isinstance(q, bool) or not isinstance(q, int) or q < 0:
                            return I.top('dynamic width')
                        q = str(q)
                    dyn.append(q)
                width, prec = dyn
                if used >= len(seq):
                    I.raise_('TypeError', 'not enough arguments for format string')
                v = seq[used]
                used += 1
            parts.append(self.percent_one(v, flags, width, prec, conv))
        parts.append(f[pos:])
        if '%' in _re.sub(rx, '', f):
            return I.top('format string %r' % f)
        if used < len(seq) and not isd and (isinstance(args, tuple) or used == 0):
            if not (len(seq) == 1 and not isinstance(args, tuple) and used == 0 and isd):
                I.raise_('TypeError', 'not all arguments converted during string formatting')
        return self.concat(parts)

    def percent_one(self, v, flags, width, prec, conv):
        I = self.I
        if isinstance(v, Choice):
            return self.distribute([v], lambda x: self.percent_one(x, flags, width, prec, conv))
        if isinstance(v, Top):
            return v
        spec = '%' + (flags or '') + (width or '') + (('.' + prec) if prec is not None else '') + conv
        if conv in 'sr':
            s = self.to_str(v) if conv == 's' else self.b_repr([v], {})
            if width and is_str(s):
                return self.pad(s, int(width), ' ', 'l' if '-' in (flags or '') else 'r')
            if prec is not None:
                return I.top('%.Ns')
            return s
        if isinstance(v, Poly):
            r = self.digit_text(v, flags or '', width, prec, conv)
            if r is not None:
                return r
            if conv in 'di':
                at = only_atom(v)
                if at is None or not at.isint:
                    v = app('trunc', v, sign='0+' if poly_sign(v) in ('+', '0+') else None, isint=True)
                if flags or width:
                    return self.num_text(v, spec[1:])
                return self.num_text(v, '')
            if conv in 'gGfFeE':
                return self.num_text(v, spec[1:])
            return I.top('%' + conv)
        if is_const(v) and not isinstance(v, (tuple, str)) and v is not None:
            try:
                return spec % v
            except (TypeError, ValueError) as e:
                I.raise_(type(e).__name__, str(e))
        if conv == 'c' and is_str(v):
            return v if isinstance(v, str) and len(v) == 1 else I.top('%c')
        if v is None or is_str(v) or isinstance(v, (tuple, Ref)):
            I.raise_('TypeError', '%%%s format: a number is required, not %s' % (conv, I.type_name(v)))
        return I.top('format %s' % spec)

    def str_format(self, f, args, kw):
        I = self.I
        if not isinstance(f, str):
            return I.top('dynamic format string')
        parts = []
        auto = 0
        for lit, field, spec, conv in _string.Formatter().parse(f):
            parts.append(lit)
            if field is None:
                continue
            m = _re.match(r'^(\w*)(.*)$', field)
            key, rest = m.group(1), m.group(2)
            if key == '':
                key = auto
                auto += 1
            if isinstance(key, int) or key.isdigit():
                k = int(key)
                if k >= len(args):
                    I.raise_('IndexError', 'format index')
                v = args[k]
            else:
                if key not in kw:
                    I.raise_('KeyError', key)
                v = kw[key]
            while rest:
                m = _re.match(r'^\.(\w+)', rest)
                if m:
                    v = I.getattr_(v, m.group(1))
                    rest = rest[m.end():]
                    continue
                m = _re.match(r'^\[([^\]]+)\]', rest)
                if m:
                    k = m.group(1)
                    v = self.getitem(v, int(k) if k.isdigit() else k)
                    rest = rest[m.end():]
                    continue
                return I.top('format field')
            if conv == 'r':
                v = self.b_repr([v], {})
            elif conv == 's':
                v = self.to_str(v)
            if spec and '{' in spec:
                parts_spec = self.str_format(spec, args[auto:] if '{}' in spec else args, kw)
                spec = parts_spec if isinstance(parts_spec, str) else None
            parts.append(self.format_value(v, spec or '' if spec is not None else None))
        return self.concat(parts)

    def str_method(self, s, name):
        def run(args, kw):
            if isinstance(s, str) and name not in ('join', 'format'):
                la, lk = [self.lower(a) for a in args], dict((n, self.lower(v)) for n, v in kw.items())
                if not any(x is MISSING for x in la + list(lk.values())):
                    return self.pure(lambda: getattr(s, name)(*la, **lk))
            if any(isinstance(a, Choice) for a in args) and name != 'join':
                return self.distribute(list(args), lambda *a: run(list(a), kw))
            return self.sstr_method(s, name, args, kw)
        return Builtin('str.' + name, run)

    def sstr_method(self, s, name, args, kw):
        I = self.I
        if name == 'format':
            return self.str_format(s, args, kw)
        if name == 'join':
            its = self.iterate(args[0])
            if its is None or any(isinstance(i, Opt) for i in its):
                if its is not None:
                    # optional pieces: unknown text
                    return I.top('join of optional pieces')
                return I.top('join of unknown')
            parts = []
            for i, x in enumerate(its):
                if i:
                    parts.append(s)
                if not is_str(x) and not isinstance(x, (Choice, Top, Ext)):
                    I.raise_('TypeError', 'sequence item: expected str, %s found' % I.type_name(x))
                parts.append(x)
            return self.concat(parts)
        if any(isinstance(a, Top) for a in args):
            return I.top('str.%s of unknown' % name)
        t = toks(s)
        if name in ('upper', 'lower'):
            out = []
            for x in t:
                if isinstance(x, str):
                    out.append(getattr(x, name)())
                else:
                    nc = set(getattr(c, name)() for c in x.chars)
                    if nc == set(x.chars):
                        out.append(x)
                    else:
                        out.append(Hole('%s.%s' % (x.label, name), nc, x.minlen, x.maxlen, x.val,
                                        set(getattr(c, name)() for c in x.first)))
            return SStr(out).simp()
        if name in ('strip', 'lstrip', 'rstrip'):
            chars = args[0] if args and args[0] is not None else ' \t\n\r\x0b\x0c'
            if not isinstance(chars, str):
                return I.top('strip of unknown chars')
            t = list(t)

            def trim(seq, first):
                while seq:
                    x = seq[0] if first else seq[-1]
                    if isinstance(x, str):
                        if x in chars:
                            seq.pop(0 if first else -1)
                            continue
                        break
                    if not (set(chars) & x.chars):
                        if x.minlen == 0:
                            # hole may be empty: what follows matters
                            rest = seq[1:] if first else seq[:-1]
                            nx = (rest[0] if first else rest[-1]) if rest else None
                            if isinstance(nx, str) and nx in chars:
                                return False
                        break
                    if first and not (set(chars) & x.first) and x.minlen > 0:
                        break
                    if set(chars) >= x.chars:
                        seq.pop(0 if first else -1)
                        continue
                    h = Hole('%s(%s,%r)' % (name, x.label, chars), x.chars, 0, x.maxlen, x.val if set(chars) <= set(' \t\r\n') else None)
                    if h.label.startswith(name + '(' + name + '('):
                        h = x
                    seq[0 if first else -1] = h
                    break
                return True
            ok = True
            if name in ('strip', 'lstrip'):
                ok = trim(t, True)
            if name in ('strip', 'rstrip') and ok:
                ok = trim(t, False)
            if not ok:
                return I.top('strip around possibly empty hole')
            return SStr(t).simp()
        if name in ('startswith', 'endswith'):
            pre = args[0]
            if isinstance(pre, tuple):
                return self.any_([self.sstr_method(s, name, [p], {}) for p in pre], 'sw(%s,%s)' % (vkey(s), vkey(pre)))
            if not is_str(pre):
                I.raise_('TypeError', 'startswith arg')
            a, b = t, toks(pre)
            if name == 'endswith':
                a, b = a[::-1], b[::-1]
            return self.prefix_test(a, b, '%s(%s,%s)' % (name, vkey(s), vkey(pre)), name == 'startswith')
        if name == 'split':
            return self.str_split(s, t, args, kw)
        if name == 'splitlines':
            lines, cur = [], []
            for x in t:
                if x == '\n':
                    lines.append(SStr(cur).simp())
                    cur = []
                elif not isinstance(x, str) and ('\n' in x.chars or '\r' in x.chars):
                    return I.top('splitlines of unknown text')
                else:
                    cur.append(x)
            if cur:
                lines.append(SStr(cur).simp())
            return I.new_list(lines)
        if name == 'replace':
            old, new = args[0], args[1]
            if isinstance(old, str) and len(old) == 1:
                out = []
                for x in t:
                    if isinstance(x, str):
                        out.append(new if x == old else x)
                    elif old in x.chars:
                        if new == '' or isinstance(new, str):
                            out.append(SStr([Hole('%s.replace(%r,%r)' % (x.label, old, new), (x.chars - {old}) | set(new), 0, None)]))
                        else:
                            return I.top('replace in hole')
                    else:
                        out.append(x)
                return self.concat([SStr([o]) if isinstance(o, Hole) else o for o in out])
            if isinstance(old, str):
                if all(isinstance(p, str) or not (set(old) & p.chars) for p in s.parts):
                    return self.concat([p.replace(old, new) if isinstance(p, str) and isinstance(new, str) else (SStr([p]) if not isinstance(p, str) else p) for p in s.parts])
            return I.top('replace')
        if name in ('find', 'index', 'rfind'):
            sub = args[0]
            r = self.str_contains(s, sub)
            tr = I.truth(r)
            if tr is False:
                if name == 'index':
                    I.raise_('ValueError', 'substring not found')
                return -1
            n = 0
            if isinstance(sub, str) and name != 'rfind':
                for i, x in enumerate(t):
                    if not isinstance(x, str):
                        if set(sub) & x.chars or x.maxlen != x.minlen:
                            break
                        n += x.minlen
                        continue
                    if ''.join(c if isinstance(c, str) else '\0' for c in t[i:i + len(sub)]) == sub:
                        return n
                    n += 1
            return app('find', s, sub, isint=True)
        if name in ('isdigit', 'isalpha', 'isalnum', 'isspace', 'isupper', 'islower', 'isdecimal', 'isnumeric'):
            if s.minlen() > 0 and name not in ('isupper', 'islower'):
                cs = [all(getattr(c, name)() for c in (x if isinstance(x, str) else x.chars)) for x in t]
                if all(cs):
                    return True
                ns = [not any(getattr(c, name)() for c in (x if isinstance(x, str) else x.chars)) and (isinstance(x, str) or x.minlen > 0) for x in t]
                if any(ns):
                    return False
            return BTerm('%s(%s)' % (name, vkey(s)))
        if name in ('zfill', 'rjust', 'ljust'):
            w = args[0]
            ch = '0' if name == 'zfill' else (args[1] if len(args) > 1 else ' ')
            if isinstance(w, int) and isinstance(ch, str):
                if isinstance(s, SStr) and s.minlen() >= w:
                    return s
                return self.pad(s, w, ch, 'l' if name == 'ljust' else 'r')
            return hole('%s(%s,%s)' % (name, vkey(s), vkey(w)), set(DIGITS + ' -+.') if isinstance(s, SStr) else set(s or '0') | set(str(ch)), 0)
        if name == 'count':
            return app('count', s, args[0], sign='0+', isint=True)
        if name in ('encode', 'decode'):
            return s
        if name == 'partition' or name == 'rpartition':
            sep = args[0]
            return self.str_partition(s, t, sep, name)
        return I.top('str.%s' % name)

    def str_partition(self, s, t, sep, name):
        if name == 'partition' and isinstance(sep, str) and len(sep) == 1:
            for i, x in enumerate(t):
                if isinstance(x, str):
                    if x == sep:
                        return (SStr(t[:i]).simp(), sep, SStr(t[i + 1:]).simp())
                elif sep in x.chars:
                    return self.I.top('partition')
            return (s, '', '')
        return self.I.top('partition')

    def prefix_test(self, a, b, key, forward):
        i = 0
        for j, y in enumerate(b):
            if i >= len(a):
                return False
            x = a[i]
            if isinstance(x, str) and isinstance(y, str):
                if x != y:
                    return False
                i += 1
                continue
            if not isinstance(x, str) and not isinstance(y, str) and x.label == y.label:
                i += 1
                continue
            if not possible_prefix(a[i:], b[j:], forward):
                return False
            return BTerm(key)
        return True

    def str_split(self, s, t, args, kw):
        I = self.I
        sep = args[0] if args else kw.get('sep')
        maxs = args[1] if len(args) > 1 else kw.get('maxsplit', -1)
        if not isinstance(maxs, int):
            return I.top('split maxsplit')
        ws = sep is None
        if ws:
            seps = set(' \t\n\r')
        elif isinstance(sep, str) and len(sep) == 1:
            seps = {sep}
        else:
            if isinstance(sep, str):
                # multi-char separator only inside literal pieces
                ps = s.parts if isinstance(s, SStr) else (s,)
                for i, q in enumerate(ps):
                    nx = ps[i + 1] if i + 1 < len(ps) else None
                    if not isinstance(q, str):
                        if sep[0] in q.chars:
                            return I.top('split on %r' % sep)
                    elif nx is not None and any(q.endswith(sep[:k]) and (sep[k] in nx.chars or nx.minlen == 0) for k in range(1, len(sep))):
                        return I.top('split on %r' % sep)
                marker = '\0'
                ps = [p.replace(sep, marker) if isinstance(p, str) else p for p in (s.parts if isinstance(s, SStr) else (s,))]
                return self.str_split(SStr(ps), toks(SStr(ps)), [marker] + list(args[1:]), kw)
            return I.top('split separator')
        out, cur, n = [], [], 0
        for x in t:
            if isinstance(x, str):
                if x in seps and (maxs < 0 or n < maxs):
                    if not (ws and not cur):
                        out.append(SStr(cur).simp())
                        n += 1
                    cur = []
                else:
                    cur.append(x)
            elif x.chars & seps:
                v = getattr(x, 'val', None)
                if x.first & seps == set() and x.minlen > 0 and (maxs < 0 or n < maxs):
                    # element count unknown
                    if not cur and not out and len(t) == 1 and not ws:
                        a = hole('split0(%s)' % x.label, x.chars - seps, 1, None, first=x.first)
                        return I.new_list([a, Opt(hole('splitN(%s)' % x.label, x.chars - seps, 0), True)])
                return I.new_list([Opt(hole('split(%s)' % vkey(s), set().union(*[set(y) if isinstance(y, str) else y.chars for y in t]) - seps, 0), True)])
            else:
                cur.append(x)
        if not ws or cur:
            out.append(SStr(cur).simp())
        return I.new_list(out)

    def str_index(self, s, k):
        I = self.I
        t = toks(s)
        if isinstance(k, SliceV):
            a, b, c = k.a, k.b, k.c
            if not all(x is None or isinstance(x, int) for x in (a, b, c)):
                return self.sym_slice(s, t, a, b, c)
            if isinstance(s, str):
                return s[slice(a, b, c)]
            if c not in (None, 1):
                if c == -1 and a is None and b is None:
                    return I.top('string reversal')
                return I.top('string stride')
            fixed = s.maxlen() == s.minlen()
            out = t
            if b is not None:
                if b >= 0:
                    out = self.take(out, b)
                    if out is None and a in (None, 0):
                        return self.take_partial(t, b)
                else:
                    out = self.drop_last(out, -b)
                if out is None:
                    return self.unknown_slice(s, k)
            if a is not None:
                if a >= 0:
                    out = self.drop(out, a)
                else:
                    r = self.drop(out[::-1], 0)
                    out = self.take(out[::-1], -a)
                    out = out[::-1] if out is not None else None
                if out is None:
                    return self.unknown_slice(s, k)
            return SStr(out).simp()
        if isinstance(k, bool) or not isinstance(k, int):
            if isinstance(k, Poly):
                return hole('%s[%s]' % (vkey(s), vkey(k)), set().union(*[set(x) if isinstance(x, str) else x.chars for x in t]) if t else ' ', 1, 1)
            if isinstance(k, Top):
                return k
            I.raise_('TypeError', 'string indices must be integers')
        if isinstance(s, str):
            try:
                return s[k]
            except IndexError:
                I.raise_('IndexError', 'string index out of range')
        seq = t if k >= 0 else t[::-1]
        n = k if k >= 0 else -k - 1
        rest = self.drop(seq, n)
        if rest is None:
            mx = s.maxlen()
            if s.minlen() <= n:
                I.may_raise('IndexError', 'string index out of range')
            return self.unknown_slice(s, k, 1)
        if not rest:
            I.raise_('IndexError', 'string index out of range')
        x = rest[0]
        if isinstance(x, str):
            return x
        if x.minlen == 0:
            nx = set(x.chars)
            for y in rest[1:]:
                nx |= set(y) if isinstance(y, str) else y.chars
                if isinstance(y, str) or y.minlen > 0:
                    break
            else:
                I.may_raise('IndexError', 'string index out of range')
            return hole('%s[%d]' % (vkey(s), k), nx, 1, 1)
        if x.minlen == x.maxlen == 1:
            return SStr([x])
        return hole('%s[%d]' % (vkey(SStr(list(rest))), 0) if k >= 0 else '%s[%d]' % (vkey(s), k), x.first if k >= 0 and n == 0 else x.chars, 1, 1)

    def unknown_slice(self, s, k, n=None):
        t = toks(s)
        cs = set().union(*[set(x) if isinstance(x, str) else x.chars for x in t]) if t else set(' ')
        kk = '%s:%s' % (k.a, k.b) if isinstance(k, SliceV) else str(k)
        return hole('%s[%s]' % (vkey(s), kk), cs, 0 if n is None else n, n)

    def sym_slice(self, s, t, a, b, c):
        cs = set().union(*[set(x) if isinstance(x, str) else x.chars for x in t]) if t else set(' ')
        if any(isinstance(x, Top) for x in (a, b, c)):
            return self.I.top('slice with unknown bound')
        # s[len(prefix):] style bounds
        return hole('%s[%s:%s]' % (vkey(s), vkey(a) if a is not None else '', vkey(b) if b is not None else ''), cs, 0)

    def take_partial(self, t, n):
        """First n characters where a hole of unknown length is cut: what is known of them."""
        t = list(t)
        out = []
        while t and n > 0:
            x = t[0]
            if isinstance(x, str):
                n -= 1
            elif x.minlen == x.maxlen and x.minlen <= n:
                n -= x.minlen
            else:
                break
            out.append(x)
            t.pop(0)
        cs = set().union(*[set(x) if isinstance(x, str) else x.chars for x in t])
        lo = min(n, sum(1 if isinstance(x, str) else x.minlen for x in t))
        x = t[0]
        first = None if isinstance(x, str) or x.minlen == 0 else x.first
        return SStr(out + [Hole('%s[:%d]' % (vkey(SStr(t)), n), cs, lo, n, None, first)]).simp()

    def take(self, t, n):
        """First n characters, or None if undetermined."""
        out = []
        for x in t:
            if n <= 0:
                break
            if isinstance(x, str):
                out.append(x)
                n -= 1
            elif x.minlen == x.maxlen and x.minlen <= n:
                out.append(x)
                n -= x.minlen
            elif x.maxlen is not None and x.maxlen <= n and x is t[-1]:
                out.append(x)
                n -= x.maxlen
            else:
                return None
        return out

    def drop(self, t, n):
        t = list(t)
        while t and n > 0:
            x = t[0]
            if isinstance(x, str):
                t.pop(0)
                n -= 1
            elif x.minlen == x.maxlen and x.minlen <= n:
                t.pop(0)
                n -= x.minlen
            else:
                if n <= x.minlen:
                    t[0] = Hole('%s[%d:]' % (x.label, n), x.chars, x.minlen - n, None if x.maxlen is None else x.maxlen - n)
                    return t
                return None
        return t

    def drop_last(self, t, n):
        t = list(t)
        while t and n > 0:
            x = t[-1]
            if isinstance(x, str):
                t.pop()
                n -= 1
            elif x.minlen == x.maxlen and x.minlen <= n:
                t.pop()
                n -= x.minlen
            else:
                if n <= x.minlen:
                    t[-1] = Hole('%s[:-%d]' % (x.label, n), x.chars, x.minlen - n, None if x.maxlen is None else x.maxlen - n, first=x.first)
                    return t
                return None
        return t

    # ---------------------------------------------------------------- containers
    def items_of(self, v):
        """Elements of a sequence value for unpacking (None: unknown)."""
        return self.iterate(v)

    def iterate(self, v, endless=False):
        """Items of v; those of an endless iterator end in ENDLESS for the
        callers that can do with it."""
        r = self._iterate(v)
        if r and r[-1] is ENDLESS and not endless:
            raise Endless('all items of an endless iterator')
        return r

    def _iterate(self, v):
        I = self.I
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, SStr):
            if all(isinstance(x, str) or x.minlen == x.maxlen == 1 for x in v.tokens()):
                return [x if isinstance(x, str) else SStr([x]) for x in v.tokens()]
            cs = set().union(*[set(x) if isinstance(x, str) else x.chars for x in v.tokens()])
            return [Opt(hole('char(%s)' % vkey(v), cs, 1, 1), True)]
        if isinstance(v, Choice):
            rows = [self.iterate(x) for x in v.vals if x is not None]
            if any(x is None for x in v.vals):
                I.may_raise('TypeError', 'None is not iterable')
            if any(r is None for r in rows):
                return None
            r = rows[0]
            for q in rows[1:]:
                r = join_items(r, q)
            return r
        if isinstance(v, Ref):
            o = self.st.get(v)
            if o.kind == 'list':
                items = list(o.items)
                if o.sub in ('gen', 'iter'):
                    self.st.w(v).items = []
                return items
            if o.kind == 'dict':
                out = []
                for k, val in o.d.values():
                    out.append(Opt(k) if val is MISSING or isinstance(val, Choice) and MISSING in val.vals else k)
                if o.open is not None:
                    out.append(Opt(I.top('unknown dict keys'), True))
                return out
            if o.kind == 'set':
                return list(o.d.values())
            if o.kind == 'obj':
                if isinstance(o.cls, Cls):
                    m = I.class_attr(o.cls, '__iter__')
                    if m is not None:
                        r = I.call(Bound(m, v), [], {})
                        if isinstance(r, Ref) and r.addr == v.addr:
                            return None
                        return self.iterate(r)
                    m = I.class_attr(o.cls, '%nt_fields')
                    if m is not None:
                        return [o.attrs.get(n) for n in m]
                    m = I.class_attr(o.cls, '__getitem__')
                    if m is not None:
                        return None
                if isinstance(o.cls, BCls) and o.cls.name == 'file':
                    ls = self.file_lines(v)
                    return ls if ls is not None else [Opt(self.I.top('file line'), True)]
                I.raise_('TypeError', '%s object is not iterable' % I.type_name(v))
        if isinstance(v, (Top, Ext)):
            return None
        if v is None or is_num(v) or isinstance(v, (Func, Bound, Cls)):
            I.raise_('TypeError', '%s object is not iterable' % I.type_name(v))
        return None

    def getitem(self, o, k):
        I = self.I
        if isinstance(o, Choice):
            return I.fork_over(o.vals, lambda x: self.getitem(x, k))
        if isinstance(k, Choice):
            return I.fork_over(k.vals, lambda x: self.getitem(o, x))
        if isinstance(o, Top) or isinstance(k, Top):
            I.may_raise_any('index of unknown')
            return I.top('item of unknown')
        if is_str(o):
            return self.str_index(o, k)
        if isinstance(o, Ext):
            return Ext('%s[%s]' % (o.path, show(k)))
        if isinstance(o, tuple):
            return self.seq_index(list(o), k, True)
        if isinstance(o, Ref):
            h = self.st.get(o)
            if h.kind == 'list':
                return self.seq_index(h.items, k, False)
            if h.kind == 'dict':
                kk = vkey(k)
                if kk in h.d:
                    return I.present(h.d[kk][1], 'KeyError', k)
                if h.open is not None:
                    I.may_raise('KeyError', k)
                    return h.open
                if not is_const(k) and h.d:
                    cand = []
                    for key, val in h.d.values():
                        t = I.truth(self.eq(k, key))
                        if t is True:
                            return I.present(val, 'KeyError', k)
                        if t is None:
                            cand.append(val)
                    if cand:
                        I.may_raise('KeyError', k)
                        return choice([c for c in cand if c is not MISSING])
                if h.default is not None:
                    v = I.call(h.default, [], {})
                    self.st.w(o).d[kk] = (k, v)
                    return v
                I.raise_('KeyError', k)
            if h.kind == 'obj' and isinstance(h.cls, Cls):
                m = I.class_attr(h.cls, '__getitem__')
                if m is not None:
                    return I.call(Bound(m, o), [k], {})
                nt = I.class_attr(h.cls, '%nt_fields')
                if nt is not None and isinstance(k, int):
                    return h.attrs.get(nt[k])
        if isinstance(o, MatchV):
            return self.match_group(o, k)
        I.raise_('TypeError', '%s object is not subscriptable' % I.type_name(o))

    def seq_index(self, items, k, istuple):
        I = self.I
        if isinstance(k, SliceV):
            if all(x is None or isinstance(x, int) for x in (k.a, k.b, k.c)):
                if any(isinstance(i, Opt) for i in items):
                    if k.a in (None, 0) and k.b is None and k.c is None:
                        return I.new_list(items)
                    lim = max(abs(k.a or 0), abs(k.b or 0))
                    if k.a is not None and k.a >= 0 and k.b is None and k.c is None and not any(isinstance(i, Opt) for i in items[:k.a]):
                        return I.new_list(items[k.a:])
                    return I.new_list([Opt(i.v if isinstance(i, Opt) else i, isinstance(i, Opt) and i.many) for i in items])
                r = items[slice(k.a, k.b, k.c)]
                return tuple(r) if istuple else I.new_list(r)
            return I.new_list([Opt(choice([i.v if isinstance(i, Opt) else i for i in items]) if items else None, True)])
        if isinstance(k, bool):
            k = int(k)
        if isinstance(k, float):
            I.raise_('TypeError', 'indices must be integers')
        if isinstance(k, int):
            seq = items if k >= 0 else items[::-1]
            n = k if k >= 0 else -k - 1
            if not any(isinstance(i, Opt) for i in seq[:n + 1]):
                if n < len(seq):
                    return seq[n]
                I.raise_('IndexError', 'list index out of range')
            cands = []
            pos_min = 0
            for i, x in enumerate(seq):
                lo = sum(1 for y in seq[:i] if not isinstance(y, Opt))
                hi = i if not any(isinstance(y, Opt) and y.many for y in seq[:i]) else 10 ** 6
                if isinstance(x, Opt) and x.many:
                    hi = 10 ** 6
                if lo <= n <= hi:
                    cands.append(x.v if isinstance(x, Opt) else x)
            sure = sum(1 for y in seq if not isinstance(y, Opt))
            if sure <= n:
                I.may_raise('IndexError', 'list index out of range')
            if not cands:
                I.raise_('IndexError', 'list index out of range')
            return choice(cands)
        if isinstance(k, Poly):
            vals = [i.v if isinstance(i, Opt) else i for i in items]
            I.may_raise('IndexError', 'list index out of range')
            if not vals:
                I.raise_('IndexError', 'empty')
            return choice(vals)
        if isinstance(k, BTerm):
            return choice([self.seq_index(items, 0, istuple), self.seq_index(items, 1, istuple)])
        I.raise_('TypeError', 'list indices must be integers')

    def setitem(self, o, k, v):
        I = self.I
        if isinstance(o, Choice):
            for x in o.vals:
                if isinstance(x, Ref):
                    alt = self.st.copy()
                    self.setitem(x, k, v)
                    I.st = join(I.st, alt)
            return
        if isinstance(k, Choice):
            for x in k.vals:
                alt = self.st.copy()
                self.setitem(o, x, v)
                I.st = join(I.st, alt)
            return
        if isinstance(o, Top):
            return
        if isinstance(o, Ext):
            self.st.event((o.path + '[]=', (k, v), ()))
            return
        if isinstance(o, Ref):
            h = self.st.get(o)
            if h.kind == 'dict':
                if I.watch is not None:
                    I.watch(I, o, k, v)
                h = self.st.w(o)
                if isinstance(k, Top):
                    h.open = choice([v] + ([h.open] if h.open is not None else []))
                    return
                h.d[vkey(k)] = (k, v)
                return
            if h.kind == 'list':
                if I.watch is not None:
                    I.watch(I, o, k, v)
                h = self.st.w(o)
                if isinstance(k, int) and not any(isinstance(i, Opt) for i in h.items):
                    if -len(h.items) <= k < len(h.items):
                        h.items[k] = v
                        return
                    I.raise_('IndexError', 'list assignment index out of range')
                if isinstance(k, SliceV) and all(x is None or isinstance(x, int) for x in (k.a, k.b, k.c)):
                    its = self.iterate(v)
                    if its is not None and not any(isinstance(i, Opt) for i in h.items):
                        tmp = list(h.items)
                        tmp[slice(k.a, k.b, k.c)] = its
                        h.items = tmp
                        return
                h.items = [Opt(choice([i.v, v]), i.many) if isinstance(i, Opt) else choice([i, v]) for i in h.items]
                return
            if h.kind == 'obj' and isinstance(h.cls, Cls):
                m = I.class_attr(h.cls, '__setitem__')
                if m is not None:
                    I.call(Bound(m, o), [k, v], {})
                    return
        I.raise_('TypeError', '%s does not support item assignment' % I.type_name(o))

    def delitem(self, o, k):
        I = self.I
        if isinstance(o, Ref):
            h = self.st.get(o)
            if h.kind == 'dict':
                kk = vkey(k)
                if kk not in h.d:
                    I.raise_('KeyError', k)
                del self.st.w(o).d[kk]
                return
            if h.kind == 'list' and isinstance(k, int):
                del self.st.w(o).items[k]
                return
            if h.kind == 'list' and isinstance(k, SliceV) and all(x is None or isinstance(x, int) for x in (k.a, k.b, k.c)):
                del self.st.w(o).items[slice(k.a, k.b, k.c)]
                return
            if h.kind == 'obj' and isinstance(h.cls, Cls):
                m = I.class_attr(h.cls, '__delitem__')
                if m is not None:
                    I.call(Bound(m, o), [k], {})
                    return
        raise_undecided('del item')

    def extend_list(self, ref, v):
        its = self.iterate(v)
        if self.I.watch is not None:
            self.I.watch(self.I, ref, 'extend', v)
        if its is None:
            its = [Opt(self.I.top('extend by unknown'), True)]
        self.st.w(ref).items.extend(its)

    def dict_view(self, o):
        """obj.__dict__ (read-only copy)."""
        h = self.st.get(o)
        return self.I.new_dict(list(h.attrs.items()))

    # --- methods of containers
    def coll_attr(self, o, h, name):
        m = getattr(self, '%s_%s' % (h.kind, name), None)
        if m is None:
            if name == '__class__':
                return BCls(getattr(h, 'sub', h.kind))
            if hasattr({'list': list, 'dict': dict, 'set': set}[h.kind], name) and not (h.kind == 'list' and h.sub != 'list'):
                return Builtin(name, lambda a, k: self.I.top('%s.%s' % (h.kind, name)))
            return MISSING
        if h.kind == 'list' and h.sub in ('gen', 'iter', 'map') and name not in ('__next__', 'next'):
            return MISSING

        def run(args, kw):
            if self.I.watch is not None and name in MUTATORS:
                self.I.watch(self.I, o, name, args)
            return m(o, args, kw)
        return Builtin('%s.%s' % (h.kind, name), run)

    def list_append(self, o, a, kw):
        self.st.w(o).items.append(a[0])

    def list_appendleft(self, o, a, kw):
        self.st.w(o).items.insert(0, a[0])

    def list_extend(self, o, a, kw):
        self.extend_list(o, a[0])

    def list_insert(self, o, a, kw):
        h = self.st.w(o)
        if isinstance(a[0], int) and not any(isinstance(i, Opt) for i in h.items):
            h.items.insert(a[0], a[1])
        elif a[0] == 0:
            h.items.insert(0, a[1])
        else:
            h.items = [Opt(choice([i.v if isinstance(i, Opt) else i for i in h.items] + [a[1]]), True)]

    def list_pop(self, o, a, kw):
        I = self.I
        h = self.st.w(o)
        k = a[0] if a else -1
        if not h.items:
            I.raise_('IndexError', 'pop from empty list')
        if isinstance(k, int):
            if (k == -1 and not isinstance(h.items[-1], Opt)) or (k == 0 and not isinstance(h.items[0], Opt)) \
                    or not any(isinstance(i, Opt) for i in h.items):
                if -len(h.items) <= k < len(h.items):
                    return h.items.pop(k)
                I.raise_('IndexError', 'pop index out of range')
            v = self.seq_index(h.items, k, False)
            h.items = [Opt(i.v if isinstance(i, Opt) else i, isinstance(i, Opt) and i.many) for i in h.items]
            return v
        v = choice([i.v if isinstance(i, Opt) else i for i in h.items])
        h.items = [Opt(v, True)]
        return v

    def list_popleft(self, o, a, kw):
        return self.list_pop(o, [0], kw)

    def list_remove(self, o, a, kw):
        h = self.st.w(o)
        for i, x in enumerate(h.items):
            t = self.I.truth(self.eq(x.v if isinstance(x, Opt) else x, a[0]))
            if t is True and not isinstance(x, Opt):
                h = self.st.w(o)
                h.items.pop(i)
                return None
            if t is None or isinstance(x, Opt):
                h = self.st.w(o)
                h.items = [Opt(y.v if isinstance(y, Opt) else y) for y in h.items]
                return None
        self.I.raise_('ValueError', 'list.remove(x): x not in list')

    def list_reverse(self, o, a, kw):
        self.st.w(o).items.reverse()

    def list_clear(self, o, a, kw):
        self.st.w(o).items = []

    def list_copy(self, o, a, kw):
        return self.I.new_list(self.st.get(o).items)

    def list_index(self, o, a, kw):
        h = self.st.get(o)
        unk = False
        for i, x in enumerate(h.items):
            if isinstance(x, Opt):
                unk = True
                break
            t = self.I.truth(self.eq(x, a[0]))
            if t is True:
                return i
            if t is None:
                unk = True
                break
        if unk:
            self.I.may_raise('ValueError', 'not in list')
            return app('index', a[0], str(o.addr), sign='0+', isint=True)
        self.I.raise_('ValueError', 'not in list')

    def list_count(self, o, a, kw):
        n = 0
        for x in self.st.get(o).items:
            t = self.I.truth(self.eq(x.v if isinstance(x, Opt) else x, a[0]))
            if t is None or isinstance(x, Opt):
                return app('count', a[0], str(o.addr), sign='0+', isint=True)
            n += t is True
        return n

    def list_sort(self, o, a, kw):
        r = self.b_sorted([o], kw)
        self.st.w(o).items = list(self.st.get(r).items)

    def list___next__(self, o, a, kw):
        return self.b_next([o], {})

    def dict_get(self, o, a, kw):
        I = self.I
        d = a[1] if len(a) > 1 else kw.get('default')
        if isinstance(a[0], Choice):
            return choice([self.dict_get(o, [x] + list(a[1:]), kw) for x in a[0].vals])
        h = self.st.get(o)
        k = vkey(a[0])
        if k in h.d:
            v = h.d[k][1]
            if v is MISSING:
                return d
            if isinstance(v, Choice) and MISSING in v.vals:
                return choice([x for x in v.vals if x is not MISSING] + [d])
            return v
        if isinstance(a[0], Top):
            return I.top('dict lookup of unknown key')
        if h.open is not None:
            return choice([h.open, d])
        if not is_const(a[0]):
            c = []
            for key, val in h.d.values():
                t = I.truth(self.eq(a[0], key))
                if t is True:
                    return val
                if t is None:
                    c.append(val)
            if c:
                return choice(c + [d])
        return d

    def dict_keys(self, o, a, kw):
        return self.st.alloc(HList(self.iterate(o), 'view'))

    def dict_values(self, o, a, kw):
        out = []
        h = self.st.get(o)
        for k, v in h.d.values():
            if v is MISSING:
                continue
            if isinstance(v, Choice) and MISSING in v.vals:
                out.append(Opt(choice([x for x in v.vals if x is not MISSING])))
            else:
                out.append(v)
        if h.open is not None:
            out.append(Opt(h.open, True))
        return self.st.alloc(HList(out, 'view'))

    def dict_items(self, o, a, kw):
        out = []
        h = self.st.get(o)
        for k, v in h.d.values():
            if v is MISSING:
                continue
            if isinstance(v, Choice) and MISSING in v.vals:
                out.append(Opt((k, choice([x for x in v.vals if x is not MISSING]))))
            else:
                out.append((k, v))
        if h.open is not None:
            out.append(Opt((self.I.top('unknown key'), h.open), True))
        return self.st.alloc(HList(out, 'view'))

    dict_iteritems = dict_items
    dict_itervalues = dict_values

    def dict_update(self, o, a, kw):
        I = self.I
        if a:
            src = a[0]
            if isinstance(src, Ref) and self.st.get(src).kind == 'dict':
                d = self.st.get(src)
                self.st.w(o).d.update(d.d)
                if d.open is not None:
                    self.st.w(o).open = d.open
            else:
                its = self.iterate(src)
                if its is None:
                    self.st.w(o).open = I.top('update by unknown')
                else:
                    for it in its:
                        p = it.v if isinstance(it, Opt) else it
                        pr = self.iterate(p)
                        if pr is None or len(pr) != 2:
                            self.st.w(o).open = I.top('update by unknown')
                        else:
                            self.st.w(o).d[vkey(pr[0])] = (pr[0], choice([pr[1], MISSING]) if isinstance(it, Opt) else pr[1])
        for k, v in kw.items():
            self.st.w(o).d[vkey(k)] = (k, v)
        return None

    def dict_pop(self, o, a, kw):
        k = vkey(a[0])
        h = self.st.get(o)
        if k in h.d:
            v = self.I.present(h.d[k][1], 'KeyError', a[0]) if len(a) < 2 else h.d[k][1]
            del self.st.w(o).d[k]
            return v
        if len(a) > 1:
            return a[1]
        self.I.raise_('KeyError', a[0])

    def dict_setdefault(self, o, a, kw):
        h = self.st.get(o)
        k = vkey(a[0])
        d = a[1] if len(a) > 1 else None
        if k in h.d and h.d[k][1] is not MISSING:
            v = h.d[k][1]
            if isinstance(v, Choice) and MISSING in v.vals:
                v = choice([x for x in v.vals if x is not MISSING] + [d])
                self.st.w(o).d[k] = (a[0], v)
            return v
        self.st.w(o).d[k] = (a[0], d)
        return d

    def dict_copy(self, o, a, kw):
        return self.st.alloc(self.st.get(o).clone())

    def dict_popitem(self, o, a, kw):
        h = self.st.get(o)
        if h.open is not None or any(x is MISSING or isinstance(x, Choice) and MISSING in x.vals for k, x in h.d.values()):
            return self.I.top('dict.popitem')
        if not h.d:
            self.I.raise_('KeyError', 'popitem(): dictionary is empty')
        k = list(h.d)[0 if a and a[0] is False or kw.get('last') is False else -1]
        return self.st.w(o).d.pop(k)

    def dict_clear(self, o, a, kw):
        self.st.w(o).d = {}

    def dict_has_key(self, o, a, kw):
        self.I.raise_('AttributeError', 'has_key')

    def set_add(self, o, a, kw):
        self.check_hashable(a[0])
        self.st.w(o).d[vkey(a[0])] = a[0]

    def check_hashable(self, v):
        I = self.I
        if isinstance(v, Ref):
            h = self.st.get(v)
            if h.kind in ('list', 'dict', 'set'):
                I.raise_('TypeError', 'unhashable type')
            if h.kind == 'obj' and isinstance(h.cls, Cls):
                for k in h.cls.mro:
                    if isinstance(k, Cls):
                        ns = self.st.get(k.ns).attrs
                        if '__hash__' in ns:
                            return
                        if '__eq__' in ns:
                            I.raise_('TypeError', 'unhashable type: %s' % h.cls.name)

    def set_update(self, o, a, kw):
        for x in a:
            its = self.iterate(x)
            if its is None:
                its = [Opt(self.I.top('set update'), True)]
            d = self.st.w(o).d
            for i in its:
                k = vkey(i.v if isinstance(i, Opt) else i)
                if k in d and not isinstance(d[k], Opt):
                    continue
                d[k] = i

    def set_remove(self, o, a, kw):
        d = self.st.w(o).d
        if vkey(a[0]) not in d:
            self.I.raise_('KeyError', a[0])
        del d[vkey(a[0])]

    def set_discard(self, o, a, kw):
        self.st.w(o).d.pop(vkey(a[0]), None)

    def set_copy(self, o, a, kw):
        return self.st.alloc(self.st.get(o).clone())

    def set_union(self, o, a, kw):
        r = self.st.alloc(self.st.get(o).clone())
        self.set_update(r, a, kw)
        return r

    def as_set(self, v):
        r = self.st.alloc(HSet())
        self.set_update(r, [v], {})
        return r

    def set_difference(self, o, a, kw):
        r = o
        for x in a:
            r = self.binop('Sub', r, self.as_set(x))
        return self.set_copy(r, [], {}) if not a else r

    def set_intersection(self, o, a, kw):
        r = o
        for x in a:
            r = self.binop('BitAnd', r, self.as_set(x))
        return self.set_copy(r, [], {}) if not a else r

    def set_symmetric_difference(self, o, a, kw):
        return self.binop('BitXor', o, self.as_set(a[0]))

    def set_issubset(self, o, a, kw):
        return self.compare('LtE', o, self.as_set(a[0]))

    def set_issuperset(self, o, a, kw):
        return self.compare('GtE', o, self.as_set(a[0]))

    def set_isdisjoint(self, o, a, kw):
        r = self.set_intersection(o, a, kw)
        if isinstance(r, Ref) and not any(isinstance(x, Opt) for x in self.st.get(r).d.values()):
            return not self.st.get(r).d
        return self.I.top('isdisjoint')

    def set_pop(self, o, a, kw):
        d = self.st.w(o).d
        if not d:
            self.I.raise_('KeyError', 'pop from an empty set')
        if len(d) == 1 and not isinstance(list(d.values())[0], Opt):
            return d.popitem()[1]
        return self.I.top('set.pop')

    def set_clear(self, o, a, kw):
        self.st.w(o).d = {}

    # ---------------------------------------------------------------- attributes of plain values
    def value_attr(self, v, name):
        if is_str(v):
            if name in STR_CONST_METHODS:
                return self.str_method(v, name)
            if name == '__class__':
                return BCls('str')
            if name in ('decode',):
                return MISSING
            return self.concrete_method(str, v, name)
        if isinstance(v, bytes):
            return self.concrete_method(bytes, v, name)
        if isinstance(v, SliceV):
            return {'start': v.a, 'stop': v.b, 'step': v.c}.get(name, MISSING)
        if isinstance(v, (Regex,)):
            return self.regex_attr(v, name)
        if isinstance(v, MatchV):
            return self.match_attr(v, name)
        if isinstance(v, tuple):
            if name == 'index':
                return Builtin('tuple.index', lambda a, k: self.list_index(self.I.new_list(list(v)), a, k))
            if name == 'count':
                return Builtin('tuple.count', lambda a, k: self.list_count(self.I.new_list(list(v)), a, k))
            return self.concrete_method(tuple, v, name)
        if isinstance(v, BCls):
            if name == '__name__':
                return v.name
            if name == 'fromkeys' and v.name in ('dict', 'OrderedDict'):
                return Builtin('fromkeys', lambda a, k: self.I.new_dict([(x, a[1] if len(a) > 1 else None) for x in self.iterate(a[0])]))
            if v.name == 'str' and name == 'maketrans':
                def trans(a, k):
                    la = [self.lower(x) for x in a]
                    return self.I.top('maketrans') if any(x is MISSING for x in la) else self.pure(lambda: str.maketrans(*la))
                return Builtin('maketrans', trans)
            if v.name == 'str' and name in STR_CONST_METHODS:
                return Builtin('str.' + name, lambda a, k: self.I.call(self.str_method(a[0], name), a[1:], k))
            if name == '__init__' and v.name == 'object':
                return Builtin('object.__init__', lambda a, k: None)
            if v.name in ('dict', 'list', 'set', 'OrderedDict') and hasattr({'dict': dict, 'list': list, 'set': set, 'OrderedDict': dict}[v.name], name):
                return Builtin(name, lambda a, k: self.I.call(self.I.getattr_(a[0], name), a[1:], k))
            t = {'str': str, 'int': int, 'float': float, 'bytes': bytes, 'tuple': tuple, 'bool': bool, 'object': object, 'type': type}.get(v.name)
            if t is not None and hasattr(t, name):
                def unbound(a, k):
                    la, lk = [self.lower(x) for x in a], dict((n, self.lower(x)) for n, x in k.items())
                    if any(x is MISSING for x in la + list(lk.values())):
                        return self.I.top('%s.%s' % (v.name, name))
                    return self.pure(lambda: getattr(t, name)(*la, **lk))
                return Builtin(name, unbound)
            return MISSING
        if v is None:
            return MISSING
        if is_num(v):
            if name in ('real',):
                return v
            if name == 'is_integer':
                return Builtin('is_integer', lambda a, k: v.is_integer() if isinstance(v, float) else BTerm('isint(%s)' % vkey(v)))
            if name == '__class__':
                return BCls('bool' if isinstance(v, bool) else 'int' if isinstance(v, int) else 'float')
            if isinstance(v, Poly):
                return self.concrete_method(float, v, name)
            return self.concrete_method(type(v), v, name)
        if isinstance(v, Builtin):
            if v.name == 'chain' and name == 'from_iterable':
                return self.E['itertools']['chain.from_iterable']
            if name == '__name__':
                return v.name
            return MISSING
        return MISSING

    def object_method(self, o, name):
        if name == '__str__' or name == '__repr__':
            return Builtin(name, lambda a, k: hole('str(@%d)' % o.addr, [chr(i) for i in range(32, 127)]))
        if name == '__hash__':
            return Builtin(name, lambda a, k: app('hash', str(o.addr), isint=True))
        if name == '__eq__':
            return Builtin(name, lambda a, k: self.is_(o, a[0]))
        if name == '__ne__':
            return Builtin(name, lambda a, k: self.I.unop(_NOT, self.is_(o, a[0])))
        return MISSING

    def obj_method(self, o, h, clsname, name):
        if clsname in _excs():
            if name == 'message':
                return MISSING
            if name == 'args':
                return h.attrs.get('args', ())
        if clsname == 'file':
            m = getattr(self, 'file_' + name, None)
            if m is not None:
                return Builtin('file.' + name, lambda a, k: m(o, a, k))
        return MISSING

    # files
    def b_open(self, args, kw):
        mode = args[1] if len(args) > 1 else kw.get('mode', 'r')
        path = args[0] if args else kw.get('file')
        r = self.st.alloc(HObj(BCls('file'), {'name': path, 'mode': mode, 'closed': False,
                                               'out': self.I.new_list([])}))
        self.st.event(('open', (path, mode, r), ()))
        known = getattr(self.I, 'files', {})
        if isinstance(path, str) and path in known and isinstance(mode, str) and 'r' in mode:
            self.st.w(r).attrs['content'] = known[path]
            return r
        if getattr(self.I, 'dirs', None) is not None and isinstance(path, str) and isinstance(mode, str):
            if 'r' in mode:
                self.I.raise_('IOError', 'no such file')
            return r
        self.I.may_raise('IOError', 'cannot open')
        return r

    def file_read(self, o, a, k):
        h = self.st.get(o)
        if 'content' in h.attrs:
            c = h.attrs['content']
            pos = h.attrs.get('pos', 0)
            self.st.w(o).attrs['pos'] = 1
            if a and a[0] is not None:
                if isinstance(c, (str, bytes)) and isinstance(a[0], int):
                    off = h.attrs.get('off', 0)
                    self.st.w(o).attrs['off'] = off + a[0]
                    return c[off:off + a[0]]
                return self.I.top('partial read')
            if isinstance(c, (str, bytes)):
                off = h.attrs.get('off', 0)
                self.st.w(o).attrs['off'] = len(c)
                return c[off:]
            return c
        if h.attrs.get('mem'):
            c = self.file_getvalue(o, [], {})
            if isinstance(c, (str, bytes)):
                off = h.attrs.get('off', 0)
                n = a[0] if a and isinstance(a[0], int) and a[0] >= 0 else len(c)
                self.st.w(o).attrs['off'] = min(len(c), off + n)
                return c[off:off + n]
        return self.I.top('file content')

    def file_write(self, o, a, k):
        out = self.st.get(o).attrs.get('out')
        if out is not None:
            if self.st.get(o).attrs.get('mem'):
                c = self.file_getvalue(o, [], {})
                if isinstance(c, (str, bytes)) and isinstance(a[0], (str, bytes)):
                    off = self.st.get(o).attrs.get('off', 0)
                    if off < len(c):        # written over what is there
                        self.st.w(out).items[:] = [c[:off], c[off + len(a[0]):]]
                        self.st.w(out).items.insert(1, a[0])
                        self.st.w(o).attrs['off'] = off + len(a[0])
                        self.st.event(('file.write', (o, a[0]), ()))
                        return None
                    self.st.w(o).attrs['off'] = len(c) + len(a[0])
                else:
                    self.st.w(o).attrs.pop('mem', None)
            self.st.w(out).items.append(a[0])
        self.st.event(('file.write', (o, a[0]), ()))
        return None

    def file_writelines(self, o, a, k):
        for x in self.iterate(a[0]) or []:
            self.file_write(o, [x.v if isinstance(x, Opt) else x], k)

    def file_close(self, o, a, k):
        self.st.w(o).attrs['closed'] = True

    def file_flush(self, o, a, k):
        return None

    def file_seek(self, o, a, k):
        if len(a) > 1 and a[1] not in (0,):
            c = self.file_getvalue(o, [], {}) if self.st.get(o).attrs.get('mem') else None
            if a[1] == 2 and isinstance(c, (str, bytes)):
                self.st.w(o).attrs['off'] = len(c) + a[0]
                return None
            return self.I.top('relative seek')
        self.st.w(o).attrs['off'] = a[0]
        return None

    def file_tell(self, o, a, k):
        return self.st.get(o).attrs.get('off', 0) if self.st.get(o).attrs.get('mem') else self.I.top('file position')

    def file_getvalue(self, o, a, k):
        h = self.st.get(o)
        its = self.st.get(h.attrs['out']).items
        if any(isinstance(i, Opt) for i in its):
            return self.I.top('joined output')
        init = h.attrs.get('content', '')
        its = ([init] if init else []) + list(its)
        if (h.attrs.get('bin') or its) and all(isinstance(i, bytes) for i in its):
            return b''.join(its)
        return self.concat(its)

    def file_lines(self, o):
        """Remaining lines of a file whose text is known, newlines kept; None otherwise."""
        c = self.file_read(o, [], {})
        if not is_str(c):
            return None
        out, cur = [], []
        for t in toks(c):
            if isinstance(t, Hole) and '\n' in t.chars:
                return None
            cur.append(t)
            if t == '\n':
                out.append(SStr.from_tokens(cur))
                cur = []
        if cur:
            out.append(SStr.from_tokens(cur))
        return out

    def file_readlines(self, o, a, k):
        ls = self.file_lines(o)
        if ls is not None:
            return self.I.new_list(ls)
        return self.I.new_list([Opt(self.I.top('file line'), True)])

    def file_readline(self, o, a, k):
        h = self.st.get(o)
        c = h.attrs.get('content')
        if isinstance(c, str):
            off = h.attrs.get('off', 0)
            end = c.find('\n', off)
            end = len(c) if end < 0 else end + 1
            self.st.w(o).attrs['off'] = end
            return c[off:end]
        return self.I.top('file line')

    def file___enter__(self, o, a, k):
        return o

    def file___exit__(self, o, a, k):
        self.st.w(o).attrs['closed'] = True

    # ---------------------------------------------------------------- builtin functions
    def b_len(self, args, kw):
        v = args[0]
        I = self.I
        if isinstance(v, Choice):
            return self.distribute([v], lambda x: self.b_len([x], {}))
        if isinstance(v, (tuple, str, bytes)):
            return len(v)
        if isinstance(v, SStr):
            if v.minlen() == v.maxlen():
                return v.minlen()
            return app('len', v, sign='+' if v.minlen() > 0 else '0+', isint=True) if v.minlen() <= 1 or True else None
        if isinstance(v, Ref):
            h = self.st.get(v)
            if h.kind == 'list' and h.sub in ('list', 'view', 'tuple', 'deque'):
                if any(isinstance(i, Opt) for i in h.items):
                    sure = sum(1 for i in h.items if not isinstance(i, Opt))
                    if any(i.many for i in h.items if isinstance(i, Opt)):
                        return app('len', '%s' % ','.join(vkey(i) for i in h.items), sign='+' if sure else '0+', isint=True)
                    opt = len(h.items) - sure
                    return choice(list(range(sure, sure + opt + 1)))
                return len(h.items)
            if h.kind == 'dict':
                return len(h.d) if h.open is None and not any(isinstance(x[1], Choice) and MISSING in x[1].vals for x in h.d.values()) else app('len', str(v.addr), sign='0+', isint=True)
            if h.kind == 'set':
                return len(h.d) if not any(isinstance(i, Opt) for i in h.d.values()) else app('len', str(v.addr), sign='0+', isint=True)
            if h.kind == 'obj' and isinstance(h.cls, Cls):
                m = I.class_attr(h.cls, '__len__')
                if m is not None:
                    return I.call(Bound(m, v), [], {})
                nt = I.class_attr(h.cls, '%nt_fields')
                if nt is not None:
                    return len(nt)
            I.raise_('TypeError', 'object of type %s has no len()' % I.type_name(v))
        if isinstance(v, (Top, Ext)):
            I.may_raise('TypeError', 'len of unknown')
            return app('len', v, sign='0+', isint=True) if isinstance(v, Ext) else I.top('len of unknown')
        I.raise_('TypeError', 'object of type %s has no len()' % I.type_name(v))

    def b_isinstance(self, args, kw):
        return self.isinstance_(args[0], args[1])

    def isinstance_(self, v, t):
        I = self.I
        if isinstance(t, tuple):
            return self.any_([self.isinstance_(v, x) for x in t], 'isinstance')
        if isinstance(v, Choice):
            return self.join_bool([self.isinstance_(x, t) for x in v.vals])
        if isinstance(t, Choice) or isinstance(t, Top) or isinstance(v, Top):
            return BTerm('isinstance(%s,%s,%s)' % (vkey(v), vkey(t), id(v)))
        if isinstance(t, Ref):
            its = self.iterate(t)
            if its is not None:
                I.raise_('TypeError', 'isinstance() arg 2 must be a type or tuple of types')
        if isinstance(v, Ref) and isinstance(t, BCls) and t.name == 'tuple' and self.nt_vals(v) is not None:
            return True
        c = self.type_of(v)
        if c is None:
            return BTerm('isinstance(%s,%s)' % (vkey(v), vkey(t)))
        if isinstance(c, BCls) and isinstance(t, BCls) and c.name == 'number':
            if t.name in ('int', 'float'):
                at = only_atom(v)
                if at is not None and at.isint:
                    return t.name == 'int'
                return t.name == 'float'
            return t.name == 'object'
        r = I.subclass(c, t)
        return BTerm('isinstance(%s,%s)' % (vkey(v), vkey(t))) if r is None else r

    def type_of(self, v):
        if isinstance(v, Ref):
            h = self.st.get(v)
            if h.kind == 'obj':
                return h.cls
            if h.kind == 'list':
                return BCls({'list': 'list', 'view': 'dict_keys', 'tuple': 'tuple'}.get(h.sub, h.sub))
            return BCls(getattr(h, 'sub', h.kind))
        if v is None:
            return BCls('NoneType')
        if isinstance(v, (bool, BTerm)):
            return BCls('bool')
        if isinstance(v, Poly):
            return BCls('number')
        if isinstance(v, (int, float, bytes)):
            return BCls(type(v).__name__)
        if is_str(v):
            return BCls('str')
        if isinstance(v, tuple):
            return BCls('tuple')
        if isinstance(v, (Cls, BCls)):
            return BCls('type')
        if isinstance(v, (Func, Bound, Builtin)):
            return BCls('function')
        return None

    def b_issubclass(self, args, kw):
        if isinstance(args[1], tuple):
            return any(self.I.subclass(args[0], t) for t in args[1])
        r = self.I.subclass(args[0], args[1])
        return bool(r) if r is not None else BTerm('issubclass')

    def b_hasattr(self, args, kw):
        v, n = args
        if isinstance(v, Choice):
            return self.join_bool([self.b_hasattr([x, n], {}) for x in v.vals])
        if not isinstance(n, str):
            return BTerm('hasattr(%s,%s)' % (vkey(v), vkey(n)))
        if isinstance(v, Top):
            return BTerm('hasattr(%s,%s,%s)' % (vkey(v), n, id(v)))
        from .interp import PyRaise
        self.I.pending.append([])
        sv = self.st.copy()
        try:
            r = self.I.find_attr(v, n)
            p = self.I.pending.pop()
        except PyRaise as ex:
            p = self.I.pending.pop()
            m = self.I.exc_matches(ex.val, BCls('AttributeError'))
            if m:
                self.I.st = sv
                return False
            raise
        if r is MISSING:
            return False
        if any(self.I.exc_matches(x, BCls('AttributeError')) for s, x in p if isinstance(x, Ref) and x.addr in self.st.heap):
            return BTerm('hasattr(%s,%s)' % (vkey(v), n))
        return True

    def b_getattr(self, args, kw):
        if not isinstance(args[1], str):
            if isinstance(args[1], Choice):
                return self.I.fork_over(args[1].vals, lambda n: self.b_getattr([args[0], n] + list(args[2:]), kw))
            return self.I.top('getattr with unknown name')
        if len(args) > 2:
            from .interp import PyRaise
            try:
                return self.I.getattr_(args[0], args[1], args[2])
            except PyRaise as ex:
                if self.I.exc_matches(ex.val, BCls('AttributeError')):
                    return args[2]
                raise
        return self.I.getattr_(args[0], args[1])

    def b_setattr(self, args, kw):
        n = args[1]
        if isinstance(n, Choice):
            for x in n.vals:
                alt = self.st.copy()
                self.I.setattr_(args[0], x, args[2])
                self.I.st = join(self.I.st, alt)
            return None
        if not isinstance(n, str):
            self.I.note('setattr with unknown name')
            raise_undecided('setattr with unknown name')
        self.I.setattr_(args[0], n, args[2])

    def b_delattr(self, args, kw):
        if isinstance(args[0], Ref) and isinstance(args[1], str):
            self.st.w(args[0]).attrs.pop(args[1], None)

    def b_callable(self, args, kw):
        v = args[0]
        if isinstance(v, (Func, Bound, Builtin, Cls, BCls, Partial)):
            return True
        if isinstance(v, Top):
            return BTerm('callable')
        if isinstance(v, Ref):
            return self.b_hasattr([v, '__call__'], {})
        return False

    def b_abs(self, args, kw):
        if isinstance(args[0], Ref) and self.st.get(args[0]).kind == 'obj':
            m = self.I.find_attr(args[0], '__abs__')
            if m is not MISSING:
                return self.I.call(m, [], {})
        return self.distribute(list(args), lambda v: self.num1('abs', v))

    def num1(self, fn, v):
        I = self.I
        if isinstance(v, Top):
            return v
        if isinstance(v, Ext):
            return Ext('%s(%s)' % (fn, v.path))
        if isinstance(v, BTerm):
            v = Choice((True, False))
            return self.distribute([v], lambda x: self.num1(fn, x))
        if not is_num(v):
            if isinstance(v, Ref) and fn == 'abs':
                m = I.find_attr(v, '__abs__')
                if m is not MISSING:
                    return I.call(m, [], {})
            I.raise_('TypeError', 'bad operand for %s: %s' % (fn, I.type_name(v)))
        if fn == 'abs':
            return num_abs(v)
        try:
            return num_fn(fn, v)
        except ValueError as e:
            I.raise_('ValueError', str(e))

    def b_round(self, args, kw):
        v = args[0]
        if isinstance(v, Choice):
            return self.distribute(list(args), lambda *a: self.b_round(list(a), kw))
        nd = args[1] if len(args) > 1 else kw.get('ndigits')
        if isinstance(v, Poly):
            at = only_atom(v)
            if at is not None and at.isint:
                return v
            r = integral(v)
            if r is not None:
                return r
            if isinstance(nd, int) and nd > 0:
                dx = digit_expansion(v)
                if dx is not None and min(dx[1]) >= -nd:
                    return v
            if nd is None:
                return app('round', v, isint=True)
            return app('round', v, nd)
        if is_const(v) and is_const(nd) and is_num(v):
            return round(v, nd) if nd is not None else round(v)
        if isinstance(v, (Top, Ext)):
            return v
        self.I.raise_('TypeError', 'round')

    def b_min(self, args, kw):
        return self.minmax('min', args, kw)

    def b_max(self, args, kw):
        return self.minmax('max', args, kw)

    def minmax(self, fn, args, kw):
        I = self.I
        if len(args) == 1:
            its = self.iterate(args[0])
            if its is None:
                return I.top('%s of unknown' % fn)
            if not its:
                if 'default' in kw:
                    return kw['default']
                I.raise_('ValueError', '%s() arg is an empty sequence' % fn)
        else:
            its = list(args)
        if any(isinstance(i, Opt) for i in its):
            if all(isinstance(i, Opt) for i in its):
                I.may_raise('ValueError', 'empty sequence')
            vals = [i.v if isinstance(i, Opt) else i for i in its]
            if all(is_num(v) for v in vals):
                return app(fn + '?', *[v if not isinstance(i, Opt) else vkey(i) for v, i in zip(vals, its)])
            return I.top('%s over optional elements' % fn)
        if 'key' in kw and kw['key'] is not None:
            keys = [I.call(kw['key'], [i], {}) for i in its]
            if all(is_num(k) and not isinstance(k, Poly) or isinstance(k, str) for k in keys):
                f = min if fn == 'min' else max
                j = f(range(len(its)), key=lambda i: keys[i])
                return its[j]
            return choice(its)
        if all(is_num(v) for v in its):
            if not any(isinstance(v, Poly) for v in its):
                return min(its) if fn == 'min' else max(its)
            return num_minmax(fn, its)
        if any(isinstance(v, Choice) for v in its):
            return self.distribute(its, lambda *a: self.minmax(fn, [tuple(a)], {}))
        if any(isinstance(v, Top) for v in its):
            return I.top('%s of unknown' % fn)
        if all(isinstance(v, str) for v in its):
            return min(its) if fn == 'min' else max(its)
        if any(isinstance(v, Ext) for v in its):
            return Ext('%s(..)' % fn)
        if all(isinstance(v, tuple) for v in its):
            if all(is_const(v) for v in its):
                return min(its) if fn == 'min' else max(its)
            return choice(its)
        if any(v is None for v in its):
            I.raise_('TypeError', "'<' not supported with NoneType")
        return choice(its)

    def b_sum(self, args, kw):
        its = self.iterate(args[0])
        if its is None:
            return self.I.top('sum of unknown')
        acc = args[1] if len(args) > 1 else kw.get('start', 0)
        if any(isinstance(i, Opt) for i in its):
            return app('sum', ','.join(vkey(i) for i in its))
        for i in its:
            acc = self.binop('Add', acc, i)
        return acc

    def b_any(self, args, kw):
        its = self.iterate(args[0])
        if its is None:
            return BTerm('any(%s)' % vkey(args[0]))
        unk = False
        for i in its:
            t = self.I.truth(i.v if isinstance(i, Opt) else i)
            if t is True and not isinstance(i, Opt):
                return True
            if t is not False:
                unk = True
        return BTerm('any(%s)' % ','.join(vkey(i) for i in its)) if unk else False

    def b_all(self, args, kw):
        its = self.iterate(args[0])
        if its is None:
            return BTerm('all(%s)' % vkey(args[0]))
        unk = False
        for i in its:
            t = self.I.truth(i.v if isinstance(i, Opt) else i)
            if t is False and not isinstance(i, Opt):
                return False
            if t is not True:
                unk = True
        return BTerm('all(%s)' % ','.join(vkey(i) for i in its)) if unk else True

    def b_range(self, args, kw):
        if all(isinstance(a, int) for a in args):
            r = range(*args)
            if len(r) > 20000:
                return self.I.top('large range')
            return self.st.alloc(HList(list(r), 'view'))
        if any(isinstance(a, float) for a in args):
            self.I.raise_('TypeError', 'float object cannot be interpreted as an integer')
        if len(args) == 1 and isinstance(args[0], Choice) and all(isinstance(x, int) for x in args[0].vals):
            lo, hi = min(args[0].vals), max(args[0].vals)
            return self.st.alloc(HList([i if i < lo else Opt(i) for i in range(hi)], 'view'))
        for a in args:
            if a is None or is_str(a):
                self.I.raise_('TypeError', 'range')
        return self.st.alloc(HList([Opt(app('idx', *[a for a in args], sign='0+', isint=True), True)], 'view'))


    def zip_iterators(self, args):
        """zip over iterators: what it takes from each of them."""
        def it(a):
            return isinstance(a, Ref) and self.st.get(a).kind == 'list' and self.st.get(a).sub in ('gen', 'iter')
        if not any(it(a) for a in args):
            return None
        for a in args:
            if not it(a) or any(isinstance(i, Opt) or i is ENDLESS for i in self.st.get(a).items):
                return None
        out, left = [], dict((a.addr, list(self.st.get(a).items)) for a in args)
        while True:
            row = []
            for a in args:
                if not left[a.addr]:
                    break
                row.append(left[a.addr].pop(0))
            if len(row) < len(args):
                break
            out.append(tuple(row))
        for a in args:
            self.st.w(a).items = left[a.addr]
        return self.st.alloc(HList(out, 'gen'))

    def b_zip(self, args, kw):
        r = self.zip_iterators(args)
        if r is not None:
            return r
        cols = [self.iterate(a, True) for a in args]
        if all(c and c[-1] is ENDLESS for c in cols) and cols:
            return self.st.alloc(HList([tuple(t) for t in zip(*[c[:-1] for c in cols])] + [ENDLESS], 'gen'))
        least = [len(c) for c in cols if c is not None and not (c and c[-1] is ENDLESS)]
        if any(c and c[-1] is ENDLESS and len(c) <= max(least or [0]) for c in cols):
            raise Endless('long zip with an endless iterator')
        cols = [c[:-1] if c and c[-1] is ENDLESS else c for c in cols]
        if any(c is None for c in cols):
            return self.st.alloc(HList([Opt(tuple(self.I.top('zip of unknown') if c is None else choice([i.v if isinstance(i, Opt) else i for i in c]) if c else None for c in cols), True)], 'gen'))
        if any(isinstance(i, Opt) for c in cols for i in c):
            n = 0
            out = []
            while all(n < len(c) and not isinstance(c[n], Opt) for c in cols):
                out.append(tuple(c[n] for c in cols))
                n += 1
            rest = [c[n:] for c in cols]
            if all(rest):
                if all(len(r) == len(rest[0]) for r in rest) and all(len(set(isinstance(r[i], Opt) for r in rest)) == 1 for i in range(len(rest[0]))):
                    for i in range(len(rest[0])):
                        xs = [r[i] for r in rest]
                        if isinstance(xs[0], Opt):
                            out.append(Opt(tuple(x.v for x in xs), xs[0].many))
                        else:
                            out.append(tuple(xs))
                else:
                    out.append(Opt(tuple(choice([i.v if isinstance(i, Opt) else i for i in r]) for r in rest), True))
            return self.st.alloc(HList(out, 'gen'))
        return self.st.alloc(HList([tuple(t) for t in zip(*cols)], 'gen'))

    def b_map(self, args, kw):
        f = args[0]
        z = self.b_zip(args[1:], {})
        out = []
        for row in self.iterate(z):
            if isinstance(row, Opt):
                out.append(Opt(self.I.call(f, list(row.v), {}), row.many))
            else:
                out.append(self.I.call(f, list(row), {}))
        return self.st.alloc(HList(out, 'gen'))

    def b_filter(self, args, kw):
        f, it = args
        out = []
        its = self.iterate(it)
        if its is None:
            its = [Opt(self.I.top('filter'), True)]
        for i in its:
            x = i.v if isinstance(i, Opt) else i
            t = self.I.truth(self.I.call(f, [x], {}) if f is not None else x)
            if t is True:
                out.append(i)
            elif t is None:
                out.append(i if isinstance(i, Opt) else Opt(i))
        return self.st.alloc(HList(out, 'gen'))

    def b_enumerate(self, args, kw):
        its = self.iterate(args[0], True)
        st = args[1] if len(args) > 1 else kw.get('start', 0)
        if its and its[-1] is ENDLESS:
            return self.st.alloc(HList([(st + i, x) for i, x in enumerate(its[:-1])] + [ENDLESS], 'gen'))
        if its is None:
            return self.st.alloc(HList([Opt((app('idx', sign='0+', isint=True), self.I.top('enumerate')), True)], 'gen'))
        out = []
        exact = True
        for i, x in enumerate(its):
            if isinstance(x, Opt):
                exact = False
                out.append(Opt((app('idx', str(i), sign='0+', isint=True), x.v), x.many))
            else:
                out.append(((st + i) if exact else app('idx', str(i), sign='0+', isint=True), x))
        return self.st.alloc(HList(out, 'gen'))

    def b_reversed(self, args, kw):
        its = self.iterate(args[0])
        if its is None:
            return self.I.top('reversed')
        return self.st.alloc(HList(its[::-1], 'gen'))

    def b_sorted(self, args, kw):
        I = self.I
        its = self.iterate(args[0])
        if its is None:
            return I.top('sorted of unknown')
        key = kw.get('key')
        rev = kw.get('reverse', False)
        if any(isinstance(i, Opt) for i in its):
            return I.new_list([Opt(choice([i.v if isinstance(i, Opt) else i for i in its]), True)] if len(its) > 1 else its)
        keys = [I.call(key, [i], {}) if key is not None else i for i in its]
        if any(isinstance(k, Top) for k in keys):
            return I.new_list([choice(its)] * len(its)) if len(its) > 1 else I.new_list(its)
        # insertion sort with the analysed comparison
        order = []
        for i, k in enumerate(keys):
            j = len(order)
            while j > 0:
                t = I.truth(self.compare('Lt', k, keys[order[j - 1]]) if not rev else self.compare('Lt', keys[order[j - 1]], k))
                if t is None:
                    c = choice(its)
                    return I.new_list([c] * len(its))
                if t:
                    j -= 1
                else:
                    break
            order.insert(j, i)
        return I.new_list([its[i] for i in order])

    def b_iter(self, args, kw):
        if len(args) > 1:
            out = []
            for _ in range(3000):
                v = self.I.call(args[0], [], {})
                t = self.I.truth(self.eq(v, args[1]))
                if t is None:
                    return self.I.top('iter of a function')
                if t:
                    return self.st.alloc(HList(out, 'iter'))
                out.append(v)
            raise Endless('iter of a function')
        its = self.iterate(args[0])
        if isinstance(args[0], Ref) and self.st.get(args[0]).kind == 'list' and self.st.get(args[0]).sub in ('gen', 'iter'):
            self.st.w(args[0]).items = its
            return args[0]
        if its is None:
            return self.I.top('iter of unknown')
        return self.st.alloc(HList(its, 'iter'))

    def b_next(self, args, kw):
        o = args[0]
        if isinstance(o, Ref):
            h = self.st.get(o)
            if h.kind == 'list' and h.sub in ('gen', 'iter'):
                if not h.items:
                    if len(args) > 1:
                        return args[1]
                    self.I.raise_('StopIteration')
                if h.items[0] is ENDLESS:
                    raise Endless('end of an endless iterator')
                if isinstance(h.items[0], Opt):
                    vals = [i.v if isinstance(i, Opt) else i for i in h.items]
                    if all(isinstance(i, Opt) for i in h.items):
                        if len(args) > 1:
                            vals.append(args[1])
                        else:
                            self.I.may_raise('StopIteration')
                    self.st.w(o).items = [i if isinstance(i, Opt) else Opt(i) for i in h.items]
                    return choice(vals)
                return self.st.w(o).items.pop(0)
            m = self.I.find_attr(o, '__next__')
            if m is not MISSING:
                return self.I.call(m, [], {})
        if isinstance(o, (Top, Ext)):
            return self.I.top('next of unknown')
        self.I.raise_('TypeError', 'object is not an iterator')

    def b_print(self, args, kw):
        f = kw.get('file')
        if isinstance(f, Ref) and self.st.get(f).kind == 'obj' and isinstance(self.st.get(f).cls, BCls) and self.st.get(f).cls.name == 'file':
            sep, parts = kw.get('sep', ' '), []
            for i, x in enumerate(args):
                if i:
                    parts.append(' ' if sep is None else sep)
                parts.append(self.to_str(x))
            end = kw.get('end', '\n')
            self.file_write(f, [self.concat(parts + ['\n' if end is None else end])], {})
            return None
        self.st.event(('print', tuple(args), ()))
        return None

    def b_repr(self, args, kw):
        v = args[0]
        if is_const(v):
            return repr(v)
        if isinstance(v, SStr):
            return self.concat(["'", v, "'"])
        seq = list(v) if isinstance(v, tuple) else None
        if isinstance(v, Ref):
            o = self.st.get(v)
            if o.kind == 'list' and o.sub == 'list' and not any(isinstance(i, Opt) for i in o.items):
                seq = o.items
            elif o.kind == 'dict' and o.open is None and type(o) is HDict and getattr(o, 'sub', 'dict') == 'dict' and not any(x is MISSING or isinstance(x, Choice) for k, x in o.d.values()):
                parts = ['{']
                for i, (k, x) in enumerate(o.d.values()):
                    parts += [', ' if i else '', self.b_repr([k], {}), ': ', self.b_repr([x], {})]
                return self.concat(parts + ['}'])
            elif o.kind == 'obj' and isinstance(o.cls, Cls):
                m = self.I.class_attr(o.cls, '__repr__')
                if m is not None:
                    return self.I.call(Bound(m, v), [], {})
                return hole('repr(@%d)' % v.addr, [chr(i) for i in range(32, 127)])
            elif o.kind == 'list' or o.kind == 'dict':
                return hole('str(@%d)' % v.addr, [chr(i) for i in range(32, 127)])
        if seq is not None and len(seq) < 400:
            parts = ['(' if isinstance(v, tuple) else '[']
            for i, x in enumerate(seq):
                if i:
                    parts.append(', ')
                parts.append(self.b_repr([x], {}))
            return self.concat(parts + [']' if not isinstance(v, tuple) else ',)' if len(seq) == 1 else ')'])
        if seq is not None:
            return hole('str(%s)' % show(v)[:60], [chr(i) for i in range(32, 127)])
        return self.to_str(v)

    def b_id(self, args, kw):
        return app('id', args[0], sign='+', isint=True)

    def b_hash(self, args, kw):
        self.check_hashable(args[0])
        return app('hash', args[0], isint=True)

    def b_ord(self, args, kw):
        if isinstance(args[0], str) and len(args[0]) == 1:
            return ord(args[0])
        return app('ord', args[0], sign='0+', isint=True)

    def b_chr(self, args, kw):
        if isinstance(args[0], int):
            return chr(args[0])
        return self.I.top('chr')

    def b_divmod(self, args, kw):
        return (self.binop('FloorDiv', args[0], args[1]), self.binop('Mod', args[0], args[1]))

    def b_format(self, args, kw):
        return self.format_value(args[0], args[1] if len(args) > 1 else '')

    def b_hex(self, args, kw):
        return hex(args[0]) if isinstance(args[0], int) else self.I.top('hex')

    def b_oct(self, args, kw):
        return oct(args[0]) if isinstance(args[0], int) else self.I.top('oct')

    def b_ascii(self, args, kw):
        return ascii(args[0]) if is_const(args[0]) else self.I.top('ascii')

    def b_pow(self, args, kw):
        if len(args) > 2:
            la = [self.lower(x) for x in args]
            return self.I.top('pow') if any(x is MISSING for x in la) else self.pure(lambda: pow(*la))
        return self.binop('Pow', args[0], args[1])

    def b_bin(self, args, kw):
        return bin(args[0]) if isinstance(args[0], int) else self.I.top('bin')

    def b_vars(self, args, kw):
        return self.dict_view(args[0])

    def b_input(self, args, kw):
        return self.I.top('input')

    def b_dir(self, args, kw):
        return self.I.top('dir')

    # --- constructors
    def construct(self, c, args, kw):
        I = self.I
        n = c.name
        if n in _excs():
            return self.st.alloc(HObj(c, {'args': tuple(args)}))
        if args and isinstance(args[0], Choice) and n in ('int', 'float', 'str', 'bool'):
            return self.distribute(list(args), lambda *a: self.construct(c, list(a), kw))
        if n == 'object':
            return self.st.alloc(HObj(c, {}))
        if n == 'type':
            if len(args) == 1:
                v = args[0]
                if isinstance(v, Choice):
                    return choice([self.construct(c, [x], {}) for x in v.vals])
                t = self.type_of(v)
                if t is None:
                    return I.top('type()')
                if t.name == 'number':
                    return BCls('float')
                return t
            return I.top('dynamic class')
        if n == 'list':
            if not args:
                return I.new_list([])
            its = self.iterate(args[0])
            if its is None:
                its = [Opt(I.top('list of unknown'), True)]
            return I.new_list(its)
        if n == 'deque':
            return I.new_list(self.iterate(args[0]) if args else [])
        if n in ('tuple',):
            if not args:
                return ()
            its = self.iterate(args[0])
            if its is None:
                return I.top('tuple of unknown')
            if any(isinstance(i, Opt) for i in its):
                return I.new_list(its, 'tuple')
            return tuple(its)
        if n in ('set', 'frozenset'):
            h = self.st.alloc(HSet())
            if args:
                self.set_update(h, [args[0]], {})
            return h
        if n in ('dict', 'OrderedDict', 'defaultdict'):
            default = None
            if n == 'defaultdict' and args:
                default = args[0]
                args = args[1:]
            h = self.st.alloc(HDict('dict' if n == 'dict' else n, default))
            if args or kw:
                self.dict_update(h, args, kw)
            return h
        if n == 'str':
            if not args:
                return ''
            return self.to_str(args[0])
        if n == 'bool':
            if not args:
                return False
            t = I.truth(args[0])
            if t is not None:
                return t
            if isinstance(args[0], BTerm):
                return args[0]
            if isinstance(args[0], Poly):
                return BTerm(I.eqkey(args[0]), True)
            return BTerm('bool(%s,%s)' % (vkey(args[0]), id(args[0])))
        if n in ('int', 'float'):
            return self.to_number(n, args)
        if n in ('bytes', 'bytearray', 'complex'):
            la = [self.lower(x) for x in args]
            if n == 'bytes' and not any(x is MISSING for x in la):
                return self.pure(lambda: bytes(*la))
            return I.top(n)
        if n in ('StringIO', 'BytesIO', 'TemporaryFile'):
            o = self.st.alloc(HObj(BCls('file'), {'closed': False, 'out': I.new_list([]), 'name': n, 'bin': n == 'BytesIO'}))
            if args and n != 'TemporaryFile':
                self.st.w(o).attrs['content'] = args[0]
            else:
                self.st.w(o).attrs['mem'] = True
            return o
        if n == 'property':
            return Prop(args[0] if args else None, args[1] if len(args) > 1 else None)
        if n == 'staticmethod':
            return StaticM(args[0])
        if n == 'classmethod':
            return ClassM(args[0])
        if n == 'slice':
            a = list(args)
            if len(a) == 1:
                return SliceV(None, a[0], None)
            return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)
        return I.top('constructor %s' % n)

    def to_number(self, n, args):
        I = self.I
        if not args:
            return 0 if n == 'int' else 0.0
        v = args[0]
        if isinstance(v, Top):
            I.may_raise('ValueError', 'invalid literal')
            return I.top('%s() of unknown' % n)
        if isinstance(v, BTerm):
            return Choice((0, 1))
        if isinstance(v, Poly):
            if n == 'float':
                return v
            at = only_atom(v)
            if at is not None and at.isint:
                return v
            r = integral(v)
            if r is not None:
                return r
            if at is not None and at.fn in ('int',):
                return v
            s = poly_sign(v)
            return app('int', v, sign='0+' if s in ('+', '0+') else None, isint=True)
        if is_const(v):
            if isinstance(v, tuple) or v is None:
                I.raise_('TypeError', '%s() argument must be a string or a number, not %s' % (n, I.type_name(v)))
            try:
                if n == 'int':
                    return int(*[a for a in args]) if len(args) == 1 or isinstance(v, str) else int(v)
                return float(v)
            except (ValueError, TypeError, OverflowError) as e:
                I.raise_(type(e).__name__, str(e))
        if isinstance(v, SStr):
            return self.str_number(n, v, args[1:])
        if isinstance(v, Ext):
            return app(n, v)
        if isinstance(v, Ref):
            m = I.find_attr(v, '__%s__' % n)
            if m is not MISSING:
                return I.call(m, [], {})
        I.raise_('TypeError', '%s() argument must be a string or a number, not %s' % (n, I.type_name(v)))

    def str_number(self, n, v, rest):
        I = self.I
        t = [x for x in v.tokens()]
        while t and isinstance(t[0], str) and t[0] in ' \t\n\r':
            t.pop(0)
        while t and isinstance(t[-1], str) and t[-1] in ' \t\n\r':
            t.pop()
        sign = 1
        lead_plus = False
        if len(t) > 1 and isinstance(t[0], str) and t[0] in '+-':
            sign = -1 if t[0] == '-' else 1
            t.pop(0)
        allc = set()
        for x in t:
            allc |= set(x) if isinstance(x, str) else x.chars
        ok = set(DIGITS) | (set('.-+eE') if n == 'float' else set('-+'))
        if not (allc & set(DIGITS)) and not any(not isinstance(x, str) and x.minlen == 0 for x in t):
            I.raise_('ValueError', 'could not convert string to %s: %s' % (n, show(v)))
        if any(isinstance(x, str) and x not in ok for x in t):
            I.raise_('ValueError', 'could not convert string to %s: %s' % (n, show(v)))
        if len(t) == 1 and isinstance(t[0], Hole):
            h = t[0]
            if h.val is not None:
                if n == 'int' and '.' in h.chars:
                    at = only_atom(h.val)
                    if at is None or not at.isint:
                        I.may_raise('ValueError', 'invalid literal for int()')
                        return Poly.of(app('int', h.val, isint=True)) * sign
                return Poly.of(h.val * sign if isinstance(h.val, Poly) else h.val * sign).simp()
        if t and all(isinstance(x, str) and (x in DIGITS or x == '.' and n == 'float') or not isinstance(x, str) and x.minlen == x.maxlen == 1
                     and x.chars <= set(DIGITS) and x.val is not None for x in t) and t.count('.') <= 1:
            k = (t.index('.') if '.' in t else len(t)) - 1
            r = 0
            for x in t:
                if x == '.':
                    continue
                r = r + (float(x) if isinstance(x, str) else x.val) * 10.0 ** k
                k -= 1
            return r * sign
        if allc - ok or n == 'int' and '.' in allc or any(not isinstance(x, str) and x.minlen == 0 for x in t) and len(t) == 1 \
                or sum(1 for x in t if x == '.' or not isinstance(x, str) and '.' in x.chars) > 1 or allc & set('-+eE') and not (
                    len(t) >= 1 and not isinstance(t[0], str) and not (set('-+') & set().union(*[set(x) if isinstance(x, str) else x.chars for x in t[1:]])) and not (allc & set('eE'))):
            I.may_raise('ValueError', 'could not convert string to %s' % n)
        nonneg = not (allc & set('-'))
        return Poly.of(app('num', SStr(t).simp(), sign='0+' if nonneg else None, isint=(n == 'int'))) * sign

    # ---------------------------------------------------------------- regex
    def regex_attr(self, rx, name):
        if name == 'pattern':
            return rx.pattern
        if name in ('match', 'search', 'fullmatch', 'findall', 'finditer', 'split', 'sub'):
            def run(args, kw):
                if any(isinstance(a, Choice) for a in args):
                    return self.I.fork_over(args[0].vals, lambda x: run([x] + list(args[1:]), kw))
                return self.regex_op(rx, name, args, kw)
            return Builtin('re.' + name, run)
        return MISSING

    def regex_op(self, rx, name, args, kw):
        I = self.I
        s = args[0] if name != 'sub' else args[1]
        if isinstance(s, Top):
            if name in ('match', 'search', 'fullmatch'):
                m = self.unknown_match(rx)
                return choice([m, None]) if not isinstance(m, Top) else m
            return I.top('regex on unknown text')
        if not is_str(s):
            I.raise_('TypeError', 'expected string or bytes-like object')
        if isinstance(s, str):
            return self.regex_const(rx, name, args, s)
        if name in ('match', 'fullmatch', 'search'):
            try:
                r = absre.match(rx.pattern, rx.flags, s, name)
            except absre.Unknown as e:
                I.note('regex %r on %s: %s' % (rx.pattern[:40], show(s)[:60], e))
                m = self.unknown_match(rx)
                return choice([m, None])
            return r
        if name == 'findall':
            try:
                return I.new_list(absre.findall(rx.pattern, rx.flags, s))
            except absre.Unknown as e:
                return I.new_list([Opt(I.top('findall'), True)])
        if name == 'split' and len(args) == 1:
            try:
                return I.new_list(absre.split(rx.pattern, rx.flags, s))
            except absre.Unknown:
                return I.top('regex split')
        if name == 'sub' and isinstance(args[0], str) and len(args) == 2:
            try:
                return absre.sub(rx.pattern, rx.flags, args[0], s)
            except absre.Unknown:
                return I.top('regex sub')
        return I.top('regex %s' % name)

    def unknown_match(self, rx):
        p = _re.compile(rx.pattern, rx.flags)
        g = dict((i, self.I.top('regex group')) for i in range(p.groups + 1))
        return MatchV(g, dict(p.groupindex), p.groups)

    def regex_const(self, rx, name, args, s):
        p = _re.compile(rx.pattern, rx.flags)
        if name in ('match', 'search', 'fullmatch'):
            extra = [a for a in args[1:] if isinstance(a, int)]
            m = getattr(p, name)(s, *extra)
            return self.const_match(p, m)
        if name == 'findall':
            return self.I.new_list(p.findall(s))
        if name == 'finditer':
            return self.st.alloc(HList([self.const_match(p, m) for m in p.finditer(s)], 'gen'))
        if name == 'split':
            return self.I.new_list(p.split(s, *[a for a in args[1:]]))
        if name == 'sub' and isinstance(args[0], str):
            return p.sub(args[0], s)
        if name == 'sub' and isinstance(args[0], (Func, Bound, Builtin, Partial)):
            out, at = [], 0
            for m in p.finditer(s):
                out += [s[at:m.start()], self.I.call(args[0], [self.const_match(p, m)], {})]
                at = m.end()
            return self.concat(out + [s[at:]])
        return self.I.top('regex %s' % name)

    def const_match(self, p, m):
        if m is None:
            return None
        mv = MatchV(dict((i, m.group(i)) for i in range(p.groups + 1)), dict(p.groupindex), p.groups)
        mv.ends = dict((i, m.span(i)) for i in range(p.groups + 1))
        mv.string = m.string
        return mv

    def match_group(self, m, k):
        if isinstance(k, str):
            if k not in m.names:
                self.I.raise_('IndexError', 'no such group')
            k = m.names[k]
        if not isinstance(k, int):
            return self.I.top('dynamic group')
        if k not in m.groups and k > m.n:
            self.I.raise_('IndexError', 'no such group')
        return m.groups.get(k)

    def match_attr(self, m, name):
        I = self.I
        if name == 'group':
            def run(a, kw):
                if not a:
                    return m.groups[0]
                if len(a) == 1:
                    return self.match_group(m, a[0])
                return tuple(self.match_group(m, x) for x in a)
            return Builtin('match.group', run)
        if name == 'groups':
            return Builtin('match.groups', lambda a, k: tuple((a[0] if a else k.get('default')) if m.groups.get(i) is None else m.groups.get(i) for i in range(1, m.n + 1)))
        if name == 'groupdict':
            return Builtin('match.groupdict', lambda a, k: I.new_dict([(n, (a[0] if a else k.get('default')) if m.groups.get(i) is None else m.groups.get(i)) for n, i in m.names.items()]))
        if name in ('end', 'start', 'span'):
            def pos(a, kw):
                g = a[0] if a else 0
                if isinstance(g, str):
                    g = m.names[g]
                if g in m.ends:
                    s, e = m.ends[g]
                else:
                    return I.top('match position')
                return (s, e) if name == 'span' else e if name == 'end' else s
            return Builtin('match.' + name, pos)
        if name in ('lastindex', 'lastgroup', 'pos', 'endpos', 're', 'expand', 'regs'):
            i = max([k for k, g in m.groups.items() if k and g is not None] or [0])
            if name == 'lastindex' and not any(isinstance(g, (Choice, Top)) for g in m.groups.values()):
                return i or None
            return I.top('match.' + name)
        if name == 'string':
            return getattr(m, 'string', MISSING)
        return MISSING

    # ---------------------------------------------------------------- external modules
    def build_ext(self):
        E = {}

        def pure1(fn):
            return Builtin('math.' + fn, lambda a, k: self.distribute(list(a), lambda v: self.num1(fn, v)))
        math_ns = dict((f, pure1(f)) for f in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sqrt', 'floor', 'ceil',
                                               'radians', 'degrees', 'fabs', 'log', 'log10', 'exp', 'trunc'))
        math_ns['pi'] = math.pi
        math_ns['e'] = math.e
        math_ns['inf'] = float('inf')

        def num2(fn):
            def run(a, k):
                def go(x, y):
                    if isinstance(x, Top) or isinstance(y, Top):
                        return x if isinstance(x, Top) else y
                    if not (is_num(x) and is_num(y)):
                        if isinstance(x, Ext) or isinstance(y, Ext):
                            return Ext(fn)
                        self.I.raise_('TypeError', fn)
                    if fn == 'hypot':
                        return self.num1('sqrt', self.binop('Add', self.binop('Mult', x, x), self.binop('Mult', y, y)))
                    if fn == 'pow':
                        return self.binop('Pow', x, y)
                    if not isinstance(x, Poly) and not isinstance(y, Poly):
                        return getattr(math, fn)(x, y)
                    if fn == 'atan2' :
                        # positive scaling does not change the angle
                        px, py = Poly.of(x), Poly.of(y)
                        # both a known multiple of one positive quantity
                        ref = px if px.terms else py
                        if poly_sign(ref) in ('+', '-'):
                            ratio = None
                            try:
                                ratio = (py if ref is px else px).div(ref)
                            except ZeroDivisionError:
                                pass
                            if ratio is not None and not isinstance(ratio, Poly):
                                sg = 1.0 if poly_sign(ref) == '+' else -1.0
                                return math.atan2(sg, sg * ratio) if ref is px else math.atan2(sg * ratio, sg)
                        terms = sorted(px.terms) or sorted(py.terms)
                        c = abs((px.terms or py.terms)[terms[0]])
                        return app('atan2', Poly.of(px).div(c), Poly.of(py).div(c))
                    return app(fn, x, y)
                return self.distribute(list(a), go)
            return Builtin('math.' + fn, run)
        for f in ('atan2', 'hypot', 'pow', 'fmod', 'copysign'):
            math_ns[f] = num2(f)
        def fixed(n):
            def run(a, k):
                la, lk = [self.lower(x) for x in a], dict((q, self.lower(x)) for q, x in k.items())
                if not any(x is MISSING for x in la + list(lk.values())):
                    return self.pure(lambda: getattr(math, n)(*la, **lk))
                if n in ('isnan', 'isinf') and all(isinstance(x, Poly) for x in a):
                    return False
                if n == 'isfinite' and all(isinstance(x, Poly) for x in a):
                    return True
                if n == 'isclose' and all(isinstance(x, Poly) or isinstance(x, (int, float)) for x in a[:2]):
                    return self.eq(a[0], a[1])
                if n == 'fsum':
                    return self.b_sum(a, k)
                return self.I.top('math.' + n)
            return Builtin('math.' + n, run)
        for n in dir(math):
            if n not in math_ns and not n.startswith('_'):
                math_ns[n] = fixed(n) if callable(getattr(math, n)) else getattr(math, n)
        E['math'] = math_ns

        op = {}
        for n, o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('truediv', 'Div'), ('mod', 'Mod'), ('floordiv', 'FloorDiv'), ('pow', 'Pow')):
            op[n] = Builtin('operator.' + n, (lambda o: lambda a, k: self.binop(o, a[0], a[1]))(o))
        for n, o in (('eq', 'Eq'), ('ne', 'NotEq'), ('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE')):
            op[n] = Builtin('operator.' + n, (lambda o: lambda a, k: self.compare(o, a[0], a[1]))(o))
        op['itemgetter'] = Builtin('itemgetter', lambda a, k: Builtin('itemgetter()', lambda b, kk: self.getitem(b[0], a[0]) if len(a) == 1 else tuple(self.getitem(b[0], x) for x in a)))
        op['attrgetter'] = Builtin('attrgetter', lambda a, k: Builtin('attrgetter()', lambda b, kk: self.I.getattr_(b[0], a[0])))
        op['neg'] = Builtin('neg', lambda a, k: self.I.unop(_USUB, a[0]))
        E['operator'] = op

        E['copy'] = {'deepcopy': Builtin('deepcopy', lambda a, k: self.deepcopy(a[0], {})),
                     'copy': Builtin('copy', lambda a, k: self.shallow(a[0]))}
        E['functools'] = {'partial': Builtin('partial', lambda a, k: Partial(a[0], a[1:], k)),
                          'reduce': Builtin('reduce', self.f_reduce),
                          'wraps': Builtin('wraps', lambda a, k: Builtin('wraps()', lambda b, kk: b[0])),
                          'total_ordering': Builtin('total_ordering', lambda a, k: a[0]),
                          'lru_cache': Builtin('lru_cache', lambda a, k: a[0] if a and isinstance(a[0], Func) else Builtin('lru()', lambda b, kk: b[0])),
                          'cmp_to_key': Builtin('cmp_to_key', lambda a, k: self.I.top('cmp_to_key'))}
        E['itertools'] = {'chain': Builtin('chain', lambda a, k: self.st.alloc(HList(sum([self.iter_or_top(x) for x in a], []), 'gen'))),
                          'chain.from_iterable': Builtin('chain.from_iterable', lambda a, k: self.st.alloc(HList(sum([self.iter_or_top(x.v if isinstance(x, Opt) else x) for x in self.iter_or_top(a[0])], []), 'gen'))),
                          'combinations': Builtin('combinations', self.f_combinations),
                          'islice': Builtin('islice', self.f_islice),
                          'tee': Builtin('tee', self.f_tee),
                          'izip': MISSING,
                          'count': Builtin('count', lambda a, k: self.f_count(*a, **k)),
                          'zip_longest': Builtin('zip_longest', self.f_zip_longest),
                          'product': Builtin('product', self.f_product),
                          'repeat': Builtin('repeat', lambda a, k: self.st.alloc(HList([a[0]] * a[1] if len(a) > 1 and isinstance(a[1], int) else [a[0]] * 400 + [ENDLESS], 'gen'))),
                          'cycle': Builtin('cycle', lambda a, k: self.f_cycle(a))}
        E['collections'] = {'OrderedDict': BCls('OrderedDict'), 'defaultdict': BCls('defaultdict'), 'deque': BCls('deque'),
                            'namedtuple': Builtin('namedtuple', self.f_namedtuple)}
        E['io'] = {'StringIO': BCls('StringIO'), 'BytesIO': BCls('BytesIO'), 'open': Builtin('open', self.b_open)}
        E['tempfile'] = dict((n, BCls('TemporaryFile')) for n in ('NamedTemporaryFile', 'TemporaryFile', 'SpooledTemporaryFile'))
        E['cStringIO'] = None      # python 2 only
        E['cairocffi'] = {'__ext__': True}
        E['re'] = {'compile': Builtin('re.compile', self.f_compile), 'IGNORECASE': int(_re.I), 'I': int(_re.I),
                   'MULTILINE': int(_re.M), 'M': int(_re.M), 'DOTALL': int(_re.S), 'S': int(_re.S), 'VERBOSE': int(_re.X), 'X': int(_re.X),
                   'escape': Builtin('re.escape', lambda a, k: _re.escape(a[0]) if isinstance(a[0], str) else self.I.top('escape'))}
        for n in ('match', 'search', 'findall', 'split', 'sub', 'finditer', 'fullmatch'):
            E['re'][n] = Builtin('re.' + n, (lambda n: lambda a, k: self.I.call(self.regex_attr(a[0] if isinstance(a[0], Regex) else Regex(a[0], a[2] if len(a) > 2 and n != 'sub' and isinstance(a[2], int) else k.get('flags', 0)), n), a[1:2] if n != 'sub' else a[1:3], {}))(n))
        E['os'] = {'sep': '/', 'path': Ext('os.path'), 'linesep': '\n', 'listdir': Builtin('os.listdir', self.os_listdir)}
        E['os.path'] = dict((n, Builtin('os.path.' + n, (lambda n: lambda a, k: self.os_path(n, a))(n)))
                            for n in ('join', 'basename', 'dirname', 'splitext', 'exists', 'isdir', 'isfile', 'abspath', 'split', 'normpath', 'relpath', 'expanduser', 'realpath'))
        E['os.path']['sep'] = '/'
        E['string'] = {'ascii_letters': _string.ascii_letters, 'digits': _string.digits, 'ascii_uppercase': _string.ascii_uppercase,
                       'ascii_lowercase': _string.ascii_lowercase, 'whitespace': _string.whitespace, 'punctuation': _string.punctuation}
        E['sys'] = {'version_info': (3, 9, 18), 'argv': Ext('sys.argv'), 'stdout': Ext('sys.stdout'), 'stderr': Ext('sys.stderr'),
                    'maxsize': 2 ** 63 - 1, 'exit': Builtin('sys.exit', lambda a, k: self.I.raise_('SystemExit'))}
        E['warnings'] = {'warn': Builtin('warn', lambda a, k: self.st.event(('warn', tuple(a), ())))}
        def ctxman(a, k):
            if not isinstance(a[0], Func):
                return self.I.top('contextmanager')
            return CtxV(a[0])
        E['dataclasses'] = {'dataclass': Builtin('dataclass', self.f_dataclass),
                            'field': Builtin('field', lambda a, k: self.st.alloc(HObj(BCls('object'), {'%field': dict(k)}))),
                            'replace': Builtin('replace', lambda a, k: self.I.top('dataclasses.replace'))}
        E['contextlib'] = {'contextmanager': Builtin('contextmanager', ctxman)}
        E['uuid'] = {'uuid4': Builtin('uuid4', lambda a, k: Ext('uuid4()'))}
        self.E = E

    def iter_or_top(self, x):
        r = self.iterate(x)
        return [Opt(self.I.top('unknown iterable'), True)] if r is None else r

    def f_reduce(self, a, k):
        its = self.iterate(a[1])
        if its is None or any(isinstance(i, Opt) for i in its):
            return self.I.top('reduce')
        acc = a[2] if len(a) > 2 else its.pop(0)
        for i in its:
            acc = self.I.call(a[0], [acc, i], {})
        return acc

    def f_combinations(self, a, k):
        its = self.iterate(a[0])
        if its is None or any(isinstance(i, Opt) for i in its):
            return self.st.alloc(HList([Opt(tuple(choice([i.v if isinstance(i, Opt) else i for i in its]) if its else self.I.top('comb') for _ in range(a[1])), True)], 'gen'))
        return self.st.alloc(HList(list(itertools.combinations(its, a[1])), 'gen'))

    def f_product(self, a, k):
        cols = [self.iterate(x) for x in a] * (k.get('repeat', 1))
        if any(c is None or any(isinstance(i, Opt) for i in c) for c in cols):
            return self.I.top('product')
        return self.st.alloc(HList(list(itertools.product(*cols)), 'gen'))

    def f_count(self, start=0, step=1):
        if not all(isinstance(x, (int, float)) for x in (start, step)):
            return self.I.top('itertools.count')
        return self.st.alloc(HList([start + i * step for i in range(400)] + [ENDLESS], 'gen'))

    def f_cycle(self, a):
        its = self.iter_or_top(a[0])
        if its and not any(isinstance(i, Opt) for i in its):
            its = its * (400 // len(its) + 1) + [ENDLESS]
        return self.st.alloc(HList(its, 'gen'))

    def f_islice(self, a, k):
        its = self.iterate(a[0], True)
        if its and its[-1] is ENDLESS:
            if all(x is None or isinstance(x, int) for x in a[1:]):
                stop = a[1] if len(a) == 2 else a[2] if len(a) > 2 else None
                if stop is not None and stop < len(its):
                    return self.st.alloc(HList(list(itertools.islice(its, *a[1:])), 'gen'))
            raise Endless('slice of an endless iterator')
        if its is None or any(isinstance(i, Opt) for i in its) or not all(x is None or isinstance(x, int) for x in a[1:]):
            if its is not None and len(a) >= 3 and isinstance(a[1], int) and a[2] is None and not any(isinstance(i, Opt) for i in its[:a[1]]):
                return self.st.alloc(HList(its[a[1]:], 'gen'))
            return self.st.alloc(HList([Opt(choice([i.v if isinstance(i, Opt) else i for i in its]) if its else None, True)] if its else [], 'gen'))
        return self.st.alloc(HList(list(itertools.islice(its, *a[1:])), 'gen'))

    def f_tee(self, a, k):
        its = self.iterate(a[0])
        n = a[1] if len(a) > 1 else 2
        if its is None:
            its = [Opt(self.I.top('tee'), True)]
        return tuple(self.st.alloc(HList(its, 'iter')) for _ in range(n))

    def f_zip_longest(self, a, k):
        cols = [self.iterate(x) for x in a]
        if any(c is None or any(isinstance(i, Opt) for i in c) for c in cols):
            return self.b_zip(a, {})
        return self.st.alloc(HList(list(itertools.zip_longest(*cols, fillvalue=k.get('fillvalue'))), 'gen'))

    def f_namedtuple(self, a, k):
        I = self.I
        fields = a[1]
        if isinstance(fields, str):
            fields = fields.replace(',', ' ').split()
        else:
            fields = self.iterate(fields)
        ns = self.st.alloc(HEnv(None, {'%nt_fields': tuple(fields)}))
        return Cls('collections:' + a[0], a[0], ModV('collections', ns), None, [], ns)

    def f_dataclass(self, a, k):
        I = self.I
        if not a:
            return Builtin('dataclass()', lambda b, kk: self.f_dataclass(b, k))
        cls = a[0]
        names, values = [], {}
        for c in reversed([c for c in cls.mro if isinstance(c, Cls)]):
            at = self.st.get(c.ns).attrs
            for n in at.get('%ann', ()):
                if n not in names:
                    names.append(n)
                values.pop(n, None)
                if n in at:
                    values[n] = at[n]
        src, env = [], {}
        sig = []
        for n in names:
            v = values.get(n, MISSING)
            if isinstance(v, Ref) and self.st.get(v).kind == 'obj' and self.st.get(v).attrs.get('%field'):
                f = self.st.get(v).attrs['%field']
                v = f.get('default', MISSING)
                if 'default_factory' in f:
                    env['_f_' + n] = f['default_factory']
                    env['_missing'] = v = self.st.alloc(HObj(BCls('object'), {}))
                    src.append('self.%s = _f_%s() if %s is _missing else %s' % (n, n, n, n))
                    env['_d_' + n] = v
                    sig.append('%s=_missing' % n)
                    env['_missing'] = v
                    continue
            src.append('self.%s = %s' % (n, n))
            if v is MISSING:
                sig.append(n)
            else:
                env['_d_' + n] = v
                sig.append('%s=_d_%s' % (n, n))
        missing = self.st.alloc(HObj(BCls('object'), {}))
        if '_missing' in env:
            env['_missing'] = missing
        post = I.class_attr(cls, '__post_init__')
        if post is not None:
            src.append('self.__post_init__()')
        fields = ', '.join('self.%s' % n for n in names) + (',' if names else '')
        text = 'def __init__(self%s):\n %s\n' % (''.join(', ' + x for x in sig), '\n '.join(src) or 'pass')
        if k.get('eq') is not False:
            text += 'def __eq__(self, other):\n if other.__class__ is not self.__class__:\n  return False\n return (%s) == (%s)\n' % (fields, fields.replace('self.', 'other.'))
        if k.get('order'):
            for m, op in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')):
                text += 'def __%s__(self, other):\n return (%s) %s (%s)\n' % (m, fields, op, fields.replace('self.', 'other.'))
        text += 'def __repr__(self):\n return %r %% (%s)\n' % (cls.name + '(' + ', '.join('%s=%%r' % n for n in names) + ')', fields)
        from .interp import Frame
        e = self.st.alloc(HEnv(self.st.alloc(HEnv(None, env)), {}))
        fr = Frame(e, cls.mod)
        fr.locals_ = None
        I.block(_ast.parse(text).body, fr)
        made = self.st.get(e).attrs
        ns = self.st.w(cls.ns).attrs
        for n in names:
            v = ns.get(n, MISSING)
            if isinstance(v, Ref) and self.st.get(v).kind == 'obj' and self.st.get(v).attrs.get('%field'):
                del ns[n]
        for n in ('__init__', '__eq__', '__repr__', '__lt__', '__le__', '__gt__', '__ge__'):
            if n in made and n not in ns:
                ns[n] = made[n]
        return cls

    def nt_attr(self, o, h, nt, name):
        I = self.I

        def make(vals):
            r = self.st.alloc(HObj(h.cls, {}))
            for n, v in zip(nt, vals):
                self.st.w(r).attrs[n] = v
            return r
        vals = [h.attrs.get(n) for n in nt]
        if name == '_fields':
            return tuple(nt)
        if name == '_asdict':
            return Builtin(name, lambda a, k: I.new_dict(list(zip(nt, vals))))
        if name == '_replace':
            return Builtin(name, lambda a, k: make([k.get(n, v) for n, v in zip(nt, vals)]))
        if name in ('index', 'count'):
            return self.value_attr(tuple(vals), name)
        return MISSING

    def f_compile(self, a, k):
        p = a[0]
        fl = a[1] if len(a) > 1 else k.get('flags', 0)
        if isinstance(p, Regex):
            return p
        if isinstance(p, str) and isinstance(fl, int):
            try:
                _re.compile(p, fl)
            except _re.error as e:
                self.I.raise_('ValueError', 'bad regex %s' % e)
            return Regex(p, fl)
        return self.I.top('dynamic regex')

    def os_listdir(self, a, k):
        dirs = getattr(self.I, 'dirs', None)
        if dirs is not None and a and isinstance(a[0], str):
            d = a[0].rstrip('/')
            if d in dirs:
                return self.I.new_list(list(dirs[d]))
            self.I.raise_('OSError', 'no such directory')
        return self.I.top('os.listdir')

    def os_path(self, n, a):
        if any(isinstance(x, Choice) for x in a):
            return self.distribute(list(a), lambda *b: self.os_path(n, list(b)))
        dirs = getattr(self.I, 'dirs', None)
        if dirs is not None and len(a) == 1 and isinstance(a[0], str) and a[0].startswith('/'):
            if n in ('exists', 'isdir', 'isfile'):
                d, f = a[0].rstrip('/') in dirs, a[0] in self.I.files
                return d or f if n == 'exists' else d if n == 'isdir' else f
            if n in ('abspath', 'realpath', 'expanduser'):
                return os.path.normpath(a[0])
        if n in ('exists', 'isdir', 'isfile'):
            return BTerm('%s(%s)' % (n, vkey(a[0])))
        if n in ('abspath', 'realpath', 'expanduser'):
            return hole('%s(%s)' % (n, vkey(a[0])), [chr(i) for i in range(32, 127)])
        if any(x is None for x in a):
            self.I.raise_('TypeError', 'expected str, bytes or os.PathLike object, not NoneType')
        if all(isinstance(x, str) for x in a):
            return getattr(os.path, n)(*a)
        if any(isinstance(x, Top) for x in a):
            return self.I.top('os.path.' + n)
        pc = [chr(i) for i in range(32, 127)]
        key = ','.join(vkey(x) for x in a)
        if n in ('splitext', 'split'):
            if n == 'splitext' and isinstance(a[0], SStr) and isinstance(a[0].parts[-1], str) and '.' in a[0].parts[-1]:
                i = a[0].parts[-1].rindex('.')
                return (SStr(a[0].parts[:-1] + (a[0].parts[-1][:i],)).simp(), a[0].parts[-1][i:])
            return (hole('%s0(%s)' % (n, key), pc, 0), hole('%s1(%s)' % (n, key), pc, 0))
        return hole('%s(%s)' % (n, key), pc, 0 if n in ('dirname', 'basename') else 1)

    def ext_module(self, name):
        if name in self.E and self.E[name] is None:
            self.I.raise_('ImportError', name)
        return Ext(name)

    def ext_attr(self, m, attr):
        ns = self.E.get(m.path)
        if isinstance(ns, dict) and '__ext__' not in ns:
            if attr in ns and attr not in STD_FIRST:
                return ns[attr]
        mod = self.I.module('%std:' + m.path) if self.I.project.path('%std:' + m.path) else None
        if mod is not None and attr in self.st.get(mod.env).attrs:
            return self.st.get(mod.env).attrs[attr]
        if isinstance(ns, dict) and '__ext__' not in ns:
            if attr in ns:
                return ns[attr]
            if m.path + '.' + attr in self.E:
                return Ext(m.path + '.' + attr)
            return Ext(m.path + '.' + attr)
        return Ext(m.path + '.' + attr)

    def ext_call(self, f, args, kw):
        n = getattr(self.I, 'ext_counter', 0) + 1
        self.I.ext_counter = n
        hook = self.I.stubs.get('ext:' + f.path)
        self.st.event((f.path, tuple(args), tuple(sorted(kw.items(), key=lambda x: x[0]))))
        if hook is not None:
            return hook(self.I, args, kw)
        return Ext('%s()' % f.path)

    # ---------------------------------------------------------------- copy
    def shallow(self, v):
        if isinstance(v, Choice):
            return choice([self.shallow(x) for x in v.vals])
        if isinstance(v, Ref):
            o = self.st.get(v)
            if o.kind == 'obj' and isinstance(o.cls, Cls):
                m = self.I.class_attr(o.cls, '__copy__')
                if m is not None:
                    return self.I.call(Bound(m, v), [], {})
            return self.st.alloc(o.clone())
        return v

    def deepcopy(self, v, memo):
        if isinstance(v, Choice):
            return choice([self.deepcopy(x, memo) for x in v.vals])
        if isinstance(v, tuple):
            return tuple(self.deepcopy(x, memo) for x in v)
        if isinstance(v, Opt):
            return Opt(self.deepcopy(v.v, memo), v.many)
        if isinstance(v, Bound):
            return Bound(v.fn, self.deepcopy(v.self_, memo))
        if isinstance(v, Ref):
            if v.addr in memo:
                return memo[v.addr]
            o = self.st.get(v)
            if o.kind == 'env':
                return v
            if o.kind == 'obj' and isinstance(o.cls, Cls):
                m = self.I.class_attr(o.cls, '__deepcopy__')
                if m is not None:
                    r = self.I.call(Bound(m, v), [self.I.new_dict()], {})
                    memo[v.addr] = r
                    return r
            if o.kind == 'list' and o.sub in ('view', 'gen'):
                self.I.raise_('TypeError', 'cannot pickle a %s object' % ('dict view' if o.sub == 'view' else 'generator'))
            c = o.clone()
            r = self.st.alloc(c)
            memo[v.addr] = r
            if o.kind == 'obj':
                for k, x in list(c.attrs.items()):
                    c.attrs[k] = self.deepcopy(x, memo)
            elif o.kind == 'list':
                c.items = [self.deepcopy(x, memo) for x in c.items]
            elif o.kind == 'dict':
                nd = {}
                for k, (kk, vv) in c.d.items():
                    k2 = self.deepcopy(kk, memo)
                    nd[vkey(k2)] = (k2, vv if vv is MISSING else self.deepcopy(vv, memo))
                c.d = nd
            elif o.kind == 'set':
                nd = {}
                for k, x in c.d.items():
                    y = self.deepcopy(x, memo)
                    nd[vkey(y.v if isinstance(y, Opt) else y)] = y
                c.d = nd
            return r
        return v


STD_FIRST = {'total_ordering', 'cmp_to_key'}

MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'add', 'sort', 'reverse', 'setdefault', 'discard', 'popleft', 'appendleft'}

_EXC = None


def _excs():
    global _EXC
    if _EXC is None:
        from .interp import BUILTIN_EXC
        _EXC = BUILTIN_EXC
    return _EXC


def raise_undecided(why):
    from .interp import Undecided
    raise Undecided(why)


import ast as _ast
_NOT = _ast.Not()
_USUB = _ast.USub()


def possible_prefix(a, b, forward=True):
    """Can some instance of token string a start with some instance of b?"""
    # character-level NFA simulation; holes are loops over their charset
    seen = set()
    todo = [(0, 0, 0, 0)]
    while todo:
        i, ci, j, cj = todo.pop()
        if (i, min(ci, 40), j, min(cj, 40)) in seen:
            continue
        seen.add((i, min(ci, 40), j, min(cj, 40)))
        if j >= len(b):
            return True
        y = b[j]
        if not isinstance(y, str) and cj >= y.minlen:
            todo.append((i, ci, j + 1, 0))
        if i >= len(a):
            continue
        x = a[i]
        if not isinstance(x, str) and ci >= x.minlen:
            todo.append((i + 1, 0, j, cj))
        if not isinstance(x, str) and x.maxlen is not None and ci >= x.maxlen:
            continue
        if not isinstance(y, str) and y.maxlen is not None and cj >= y.maxlen:
            continue
        xs = {x} if isinstance(x, str) else (x.first if ci == 0 and forward else x.chars)
        ys = {y} if isinstance(y, str) else (y.first if cj == 0 and forward else y.chars)
        if xs & ys:
            ni = (i + 1, 0) if isinstance(x, str) else (i, ci + 1)
            nj = (j + 1, 0) if isinstance(y, str) else (j, cj + 1)
            todo.append(ni + nj)
    return False


def possible_equal(a, b):
    end = '\0END'
    return possible_prefix(list(a) + [end], list(b) + [end])
