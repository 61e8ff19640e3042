"""C20 aperture macro primitives: reading and writing."""
from sa.lab import *
from .amspec import *
from .strs import *

RULE = ('Abstract interpretation of from_gerber(), to_gerber() and AMParamStmt.build() of every aperture macro primitive on texts whose numbers are '
        'labelled holes: each modifier must land in the attribute the file format assigns to its position, be written back at that position, and '
        'writing then reading must give an equal primitive.')
ASSUMPTIONS = ['written coordinates are compared up to rounding to six or more digits', 'outlines of 1 to 4 points stand for all lengths']


def layout(cls, hasx, fields, order, npts, exp, v, spell):
    """(text parts, {attribute: value}) of a primitive; `spell` formats counts and flags."""
    kinds = dict(fields)
    parts, attrs = [], {}

    def n(label):
        parts.append([num(label)])
        return sym(label)

    def count(k):
        parts.append([spell % k])
        return k
    if hasx:
        parts.append([(spell if exp in (0, 1) else '%s') % exp])
    for a in order:
        if a == '#':
            count(npts)
        elif kinds[a] == 'P':
            attrs[a] = (n(a + '_x'), n(a + '_y'))
        elif kinds[a] == 'n':
            attrs[a] = count(INTS[a])
        elif kinds[a] == 'PTS':
            pts = []
            for i in range(npts - 1):
                pts.append((n('p%d_x' % i), n('p%d_y' % i)))
            parts.append([num('start_point_x')])
            parts.append([num('start_point_y')])
            pts.append(attrs['start_point'])
            attrs[a] = tuple(pts)
        else:
            attrs[a] = n(a)
    return parts, attrs


def run(O, thorough):
    L = Lab(['gerber.am_statements', 'gerber.gerber_statements', 'gerber.primitives'])
    for cls, codes, hasx, fields, order in table():
        for code in codes:
            for exp in ((1, 0) if hasx else (1,)):
                for npts in ((1, 2, 3, 4) if 'points' in dict(fields) else (3,)):
                    for spell in ('%d', '%.1f'):
                        for tail in ('*', '', ' *'):
                            one(O, L, cls, code, hasx, fields, order, exp, npts, spell, tail)
    # written attributes of a primitive built by the program
    for cls, codes, hasx, fields, order in table():
        for code in codes:
            for exp in (('on', 'off') if hasx else ('on',)):
                for npts in ((1, 2, 3, 4) if 'points' in dict(fields) else (3,)):
                    written(O, L, cls, code, hasx, fields, order, exp, npts)
    comments(O, L)
    dispatch(O, L)


def same_attrs(O, L, key, o, cls, code, hasx, exp, attrs, fields, where, what):
    O.equal(key + ':code', L.get(o, 'code'), code, where, '%s code' % what)
    O.equal(key + ':exposure', L.get(o, 'exposure'), exp if hasx else 'on', where, '%s exposure' % what)
    got = readback(L, o, fields)
    for a, v in attrs.items():
        O.equal('%s:%s' % (key, a), got[a], v, where, '%s %s' % (what, a))


def one(O, L, cls, code, hasx, fields, order, exp, npts, spell, tail):
    key = '%s/%d/exp=%s/%d/%s/%r' % (cls, code, exp, npts, spell % 1, tail)
    where = L.where(A + cls, 'from_gerber')
    parts, attrs = layout(cls, hasx, fields, order, npts, exp, None, spell)
    t = ['%d' % code]
    for p in parts:
        t.append(',')
        t += p
    if isinstance(t[-1], Hole) is False and tail == '':
        pass
    L.fresh()
    box = {}

    def go():
        o = L.I.call(L.obj_from(A + cls + '.from_gerber'), [text(*(t + [tail]))], {})
        box['o'] = o
        w = L.call(o, 'to_gerber')
        box['w'] = w
        box['o2'] = L.I.call(L.obj_from(A + cls + '.from_gerber'), [w], {})
    oc = L.run(go)
    O.note(L)
    if not O.outcome(key, oc, where, '%s.from_gerber()/to_gerber()' % cls):
        return
    e = 'on' if exp == 1 else 'off'
    if L.cls_of(box['o']) != cls:
        O.fail(key, where, 'from_gerber returns a %s' % L.cls_of(box['o']))
        return
    same_attrs(O, L, key + ':read', box['o'], cls, code, hasx, e, attrs, fields, where, '%s read from text:' % cls)
    check_text(O, key + ':written', box['w'], code, hasx, e, attrs, fields, order, npts, L.where(A + cls, 'to_gerber'), cls)
    same_attrs(O, L, key + ':again', box['o2'], cls, code, hasx, e, attrs, fields, where, '%s written and read again:' % cls)


def check_text(O, key, w, code, hasx, exp, attrs, fields, order, npts, where, cls):
    if not isinstance(w, (str, SStr)):
        O.undecided(key, 'written as %s' % show(w))
        return
    fs = fields_(w)
    last = pieces(fs[-1])
    if not last or not isinstance(last[-1], str) or not last[-1].endswith('*'):
        O.fail(key, where, '%s is written as %s, without the closing *' % (cls, show(w)))
        return
    fs[-1] = text(*(last[:-1] + ([last[-1][:-1]] if last[-1][:-1] else [])))
    want = [('code', float(code))]
    if hasx:
        want.append(('exposure', 1.0 if exp == 'on' else 0.0))
    kinds = dict(fields)
    for a in order:
        if a == '#':
            want.append(('point count', float(npts)))
        elif kinds[a] == 'P':
            want += [(a + ' x', attrs[a][0]), (a + ' y', attrs[a][1])]
        elif kinds[a] == 'PTS':
            for i, p in enumerate(attrs[a]):
                want += [('point %d x' % i, p[0]), ('point %d y' % i, p[1])]
        else:
            want.append((a, attrs[a]))
    if len(fs) != len(want):
        O.fail(key, where, '%s is written with %d fields, expected %d: %s' % (cls, len(fs), len(want), show(w)))
        return
    for i, (f, (nm, v)) in enumerate(zip(fs, want)):
        if isinstance(f, str):
            f = f.strip()
        elif isinstance(f, SStr):
            ps = [p.strip() if isinstance(p, str) else p for p in f.parts]
            f = text(*[p for p in ps if p != ''])
        n = number(f)
        if n is None:
            O.undecided('%s:%d' % (key, i), '%s field %s is %s' % (cls, nm, show(f)))
        else:
            O.equal('%s:%d' % (key, i), n, v, where, '%s field %d (%s)' % (cls, i, nm))
            d = digits(f)
            if d is not None and d < 6:
                O.fail('%s:%d:digits' % (key, i), where, '%s field %d (%s) is written with only %d digits' % (cls, i, nm, d))


def fields_(w):
    return fields(w)


def written(O, L, cls, code, hasx, fields, order, exp, npts):
    key = '%s/%d/%s/%d:to_gerber' % (cls, code, exp, npts)
    where = L.where(A + cls, 'to_gerber')
    vals = values(fields, npts)
    L.fresh()
    oc = L.run(lambda: L.call(build(L, cls, code, exp, fields, vals, hasx), 'to_gerber'))
    O.note(L)
    if O.outcome(key, oc, where, '%s.to_gerber()' % cls):
        attrs = dict((a, tuple(v) if isinstance(v, list) else v) for a, v in vals.items())
        check_text(O, key, oc.value, code, hasx, exp, attrs, fields, order, npts, where, cls)
    # the flag accepts any case
    if hasx:
        for e in ('ON', 'Off', 'oFF', 'On'):
            L.fresh()
            oc = L.run(lambda: L.get(build(L, cls, code, e, fields, vals, hasx), 'exposure'))
            if O.outcome(key + ':' + e, oc, where, '%s with exposure %s' % (cls, e)):
                O.equal(key + ':' + e, oc.value, e.lower(), where, 'exposure')


def comments(O, L):
    where = L.where(A + 'AMCommentPrimitive', 'from_gerber')
    C = Hole('comment', 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.:;/', 1)
    L.fresh()
    box = {}

    def go():
        o = L.I.call(L.obj_from(A + 'AMCommentPrimitive.from_gerber'), [text('0 ', C, ' *')], {})
        box['c'], box['code'] = L.get(o, 'comment'), L.get(o, 'code')
        w = L.call(o, 'to_gerber')
        o2 = L.I.call(L.obj_from(A + 'AMCommentPrimitive.from_gerber'), [w], {})
        box['c2'] = L.get(o2, 'comment')
        box['p'] = L.call(o, 'to_primitive', 'inch')
    oc = L.run(go)
    O.note(L)
    if O.outcome('comment', oc, where, 'AMCommentPrimitive'):
        O.equal('comment:code', box['code'], 0, where, 'code of a comment')
        O.equal('comment:text', box['c'], text(C), where, 'comment')
        O.equal('comment:again', box['c2'], text(C), where, 'comment written and read again')
        O.equal('comment:shape', box['p'], None, where, 'shape of a comment')


def dispatch(O, L):
    """A macro builds the primitive class of its code, in order."""
    S = 'gerber.gerber_statements:'
    where = L.where(S + 'AMParamStmt', 'build')
    srcs = {'AMCirclePrimitive': '%d,1,$1,$2,$3', 'AMVectorLinePrimitive': '%d,1,$1,$2,$3,$4,$5,0', 'AMOutlinePrimitive': '%d,1,2,$1,$2,$3,$4,$1,$2,0',
            'AMPolygonPrimitive': '%d,1,6,$1,$2,$3,0', 'AMMoirePrimitive': '%d,$1,$2,$3,$4,$5,3,$6,$7,0', 'AMThermalPrimitive': '%d,$1,$2,$3,$4,$5,0',
            'AMCenterLinePrimitive': '%d,1,$1,$2,$3,$4,0', 'AMLowerLeftLinePrimitive': '%d,1,$1,$2,$3,$4,0'}
    cases = [(cls, c) for cls, codes, _, _, _ in table() for c in codes]
    mods = [sym('m%d' % i, '+') for i in range(1, 8)]

    def build_(txt):
        st = L.new(S + 'AMParamStmt', 'AM', 'M', txt)
        L.set(st, 'units', 'inch')
        L.call(st, 'build', L.list([L.list(mods)]))
        return st
    for cls, c in cases:
        for pre in ('', '0 note*'):
            key = 'build:%d:%s' % (c, 'after comment' if pre else 'alone')
            L.fresh()
            oc = L.run(lambda: L.items(L.get(build_(pre + srcs[cls] % c + '*'), 'primitives')))
            O.note(L)
            if O.outcome(key, oc, where, 'building a macro with code %d' % c):
                got = tuple(L.cls_of(p) for p in oc.value)
                O.equal(key, got, (('AMCommentPrimitive',) if pre else ()) + (cls,), where, 'primitives of a macro with code %d' % c)
                p = oc.value[-1]
                if got[-1] == cls:
                    O.equal(key + ':code', L.get(p, 'code'), c, where, 'code')
    # several primitives: all of them, in order; a second build starts afresh
    key = 'build:all'
    L.fresh()
    box = {}
    txt = ''.join(srcs[cls] % c + '*' for cls, c in cases if cls not in ('AMThermalPrimitive', ))

    def go():
        st = build_(txt)
        box['1'] = tuple(L.cls_of(p) for p in L.items(L.get(st, 'primitives')))
        L.call(st, 'build', L.list([L.list(mods[1:])]))
        ps = L.items(L.get(st, 'primitives'))
        box['2'] = tuple(L.cls_of(p) for p in ps)
        box['d'] = L.get(ps[0], 'diameter')
    oc = L.run(go)
    if O.outcome(key, oc, where, 'building a macro with every code'):
        want = tuple(cls for cls, c in cases if cls != 'AMThermalPrimitive')
        O.equal(key, box['1'], want, where, 'primitives of the macro')
        O.equal(key + ':again', box['2'], want, where, 'primitives after building again')
        O.equal(key + ':values', box['d'], mods[1], where, 'value of the first modifier after building again')
    # the written macro carries its primitives in order
    key = 'build:written'
    L.fresh()
    oc = L.run(lambda: L.call(build_('1,1,$1,0,0*21,0,$1,$2,$3,$4,45*'), 'to_gerber'))
    if O.outcome(key, oc, where, 'writing a built macro'):
        w = oc.value
        ps = pieces(w)
        if ps is None or not isinstance(ps[0], str) or not ps[0].startswith('%AMM*') or not isinstance(ps[-1], str) or not ps[-1].endswith('*%'):
            O.fail(key, where, 'macro is written as %s' % show(w))
        else:
            vals = []
            for f in fields(text(*[p.replace('*', ',') if isinstance(p, str) else p for p in ps])):
                vals.append(number(f))
            want = [1.0, 1.0, mods[0], 0.0, 0.0, 21.0, 0.0, mods[0], mods[1], mods[2], mods[3], 45.0]
            O.equal(key, tuple(v for v in vals if v is not None), tuple(want), where, 'numbers of the written macro')
