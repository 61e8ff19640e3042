"""C03 aperture macro primitives: unit conversion and the shapes they become."""
import math

from sa.lab import *
from .amspec import *

RULE = ('Abstract interpretation of to_inch()/to_metric(), to_primitive() and from_primitive() of every aperture macro primitive on labelled '
        'symbolic modifiers, both exposures. Conversion must scale every length exactly once and nothing else; a built macro statement must convert '
        'its primitives once; the drawable shapes must have the position, size, contour, units and polarity the modifiers describe.')
ASSUMPTIONS = ['outlines of 1 to 4 points stand for all lengths', 'the stroke contour of a vector line is that of Line.vertices (see C07)',
               'lower left line and moire have no drawable form in this code base and are not covered by the shape part']


def rot(p, deg, c=(0.0, 0.0)):
    a = deg * (math.pi / 180)
    cs, sn = app('cos', a), app('sin', a)
    if is_const(deg):
        cs, sn = math.cos(math.radians(deg)), math.sin(math.radians(deg))
        cs, sn = (round(cs) * 1.0 if abs(cs - round(cs)) < 1e-12 else cs), (round(sn) * 1.0 if abs(sn - round(sn)) < 1e-12 else sn)
    dx, dy = p[0] - c[0], p[1] - c[1]
    return (cs * dx - sn * dy + c[0], sn * dx + cs * dy + c[1])


def run(O, thorough):
    L = Lab(['gerber.am_statements', 'gerber.gerber_statements', 'gerber.primitives'])
    convert(O, L, thorough)
    shapes(O, L, thorough)
    statement(O, L)
    back(O, L)
    group(O, L)


def convert(O, L, thorough):
    for cls, codes, hasx, fields, _ in table():
        for code in codes:
            for exp in (('on', 'off') if hasx else ('on',)):
                for n in ((1, 2, 3, 4) if 'points' in dict(fields) else (3,)):
                    for meth, f, other in (('to_metric', 25.4, 'to_inch'), ('to_inch', 1 / 25.4, 'to_metric')):
                        key = '%s/%d/%s/%d:%s' % (cls, code, exp, n, meth)
                        where = L.where(A + cls, meth)
                        vals = values(fields, n)
                        box = {}
                        L.fresh()

                        def go():
                            o = build(L, cls, code, exp, fields, vals, hasx)
                            L.call(o, meth)
                            box['a'] = readback(L, o, fields)
                            box['k'] = (L.get(o, 'code'), L.get(o, 'exposure'))
                            L.call(o, other)
                            box['r'] = readback(L, o, fields)
                        oc = L.run(go)
                        O.note(L)
                        if not O.outcome(key, oc, where, '%s.%s()' % (cls, meth)):
                            continue
                        want, orig = scale(vals, fields, f), scale(vals, fields, 1.0)
                        O.equal(key + ':code', box['k'], (code, exp), where, 'code and exposure')
                        for a in want:
                            if O.equal(key + ':' + a, box['a'][a], want[a], where, '%s.%s after %s()' % (cls, a, meth)):
                                O.equal(key + ':' + a + ':back', box['r'][a], orig[a], where, '%s.%s after %s() and %s()' % (cls, a, meth, other))


def edges(L, outline):
    return [(L.get(p, 'start'), L.get(p, 'end')) for p in L.items(L.get(outline, 'primitives'))]


def pteq(a, b):
    return equiv(norm_(a), norm_(b))


def norm_(v):
    return tuple(norm_(x) for x in v) if isinstance(v, tuple) else (v * 1.0 if isinstance(v, int) and not isinstance(v, bool) else v)


def closed(O, key, es, where, what):
    """Every edge starts where the one before ended."""
    good = True
    for i in range(len(es)):
        a, b = es[i - 1][1], es[i][0]
        good = O.equal('%s:edge%d' % (key, i), b, a, where, '%s: start of edge %d (the end of the edge before it)' % (what, i)) and good
    return good


def tags(O, L, key, prim, units, exp, where, cls):
    O.equal(key + ':units', L.get(prim, 'units'), units, where, 'units of the %s shape' % cls)
    O.equal(key + ':polarity', L.get(prim, 'level_polarity'), 'dark' if exp == 'on' else 'clear', where, 'polarity of the %s shape' % cls)


def contour(O, L, key, prim, want, units, exp, where, cls):
    """prim is an outline through the points of want, in this cyclic order or reversed."""
    if not L.is_a(prim, P + 'Outline'):
        O.fail(key, where, '%s becomes a %s, expected an outline' % (cls, L.cls_of(prim)))
        return
    tags(O, L, key, prim, units, exp, where, cls)
    es = edges(L, prim)
    for i, p in enumerate(L.items(L.get(prim, 'primitives'))):
        O.equal('%s:edge%d-units' % (key, i), L.get(p, 'units'), units, where, 'units of edge %d' % i)
    if not es:
        O.fail(key, where, '%s has no edges' % cls)
        return
    closed(O, key, es, where, cls)
    pts = [e[1] for e in es]
    # drop zero length edges
    n = len(want)
    if len(pts) != n:
        O.fail(key + ':corners', where, '%s has %d edges, expected %d' % (cls, len(pts), n))
        return
    orders = []
    for s in range(n):
        orders.append([want[(s + i) % n] for i in range(n)])
        orders.append([want[(s - i) % n] for i in range(n)])
    O.equal(key + ':corners', tuple(pts), [tuple(o) for o in orders], where, '%s corners' % cls)


def shapes(O, L, thorough):
    for cls, codes, hasx, fields, _ in table():
        if cls in ('AMMoirePrimitive', 'AMLowerLeftLinePrimitive'):
            continue
        for code in codes:
            for exp in (('on', 'off') if hasx else ('on',)):
                for units in ('inch', 'metric'):
                    for r in ((0, N('rotation')) if dict(fields).get('rotation') else (0,)):
                        for n in ((2, 3, 4) if 'points' in dict(fields) else (3,)):
                            key = '%s/%d/%s/%s/rot=%s/%d:shape' % (cls, code, exp, units, show(r), n)
                            where = L.where(A + cls, 'to_primitive')
                            vals = values(fields, n)
                            if 'rotation' in vals:
                                vals['rotation'] = r
                            L.fresh()
                            oc = L.run(lambda: L.call(build(L, cls, code, exp, fields, vals, hasx), 'to_primitive', units))
                            O.note(L)
                            if not O.outcome(key, oc, where, '%s.to_primitive()' % cls, allow=('ValueError',)):
                                if oc.kind == 'raise':
                                    O.fail(key, where, '%s.to_primitive() raises %s' % (cls, oc.value))
                                continue
                            p = oc.value
                            oc2 = L.run(lambda: shape1(O, L, key, cls, p, vals, units, exp, where, r))
                            if oc2.kind == 'raise':
                                O.fail(key, where, 'the shape of %s lacks an attribute: %s %s' % (cls, oc2.value, oc2.why))
                            elif oc2.kind == 'undecided':
                                O.undecided(key, oc2.why)


def shape1(O, L, key, cls, p, v, units, exp, where, r):
    if cls == 'AMCirclePrimitive':
        if not L.is_a(p, P + 'Circle'):
            return O.fail(key, where, 'becomes a %s' % L.cls_of(p))
        tags(O, L, key, p, units, exp, where, cls)
        O.equal(key + ':position', L.get(p, 'position'), v['position'], where, 'position')
        O.equal(key + ':diameter', L.get(p, 'diameter'), v['diameter'], where, 'diameter')
    elif cls == 'AMPolygonPrimitive':
        if not L.is_a(p, P + 'Polygon'):
            return O.fail(key, where, 'becomes a %s' % L.cls_of(p))
        tags(O, L, key, p, units, exp, where, cls)
        O.equal(key + ':position', L.get(p, 'position'), v['position'], where, 'position')
        O.equal(key + ':radius', L.get(p, 'radius'), v['diameter'] * 0.5, where, 'radius')
        O.equal(key + ':sides', L.get(p, 'sides'), v['vertices'], where, 'sides')
        O.equal(key + ':rotation', L.get(p, 'rotation'), v['rotation'], where, 'rotation')
        O.equal(key + ':hole', L.get(p, 'hole_diameter'), [0, None], where, 'hole diameter')
    elif cls == 'AMOutlinePrimitive':
        contour(O, L, key, p, [rot(q, r) for q in v['points']], units, exp, where, cls)
    elif cls == 'AMVectorLinePrimitive':
        ap = L.new(P + 'Rectangle', None, v['width'], v['width'])
        line = L.new(P + 'Line', v['start'], v['end'], ap)
        want = [rot(q, r) for q in L.items(L.get(line, 'vertices'))]
        contour(O, L, key, p, want, units, exp, where, cls)
    elif cls == 'AMCenterLinePrimitive':
        cx, cy = v['center']
        w, h = v['width'] * 0.5, v['height'] * 0.5
        want = [rot(q, r, v['center']) for q in ((cx - w, cy + h), (cx - w, cy - h), (cx + w, cy - h), (cx + w, cy + h))]
        contour(O, L, key, p, want, units, exp, where, cls)
    elif cls == 'AMThermalPrimitive':
        thermal(O, L, key, p, v, units, where, r)


def thermal(O, L, key, p, v, units, where, r):
    outs = L.items(p)
    if len(outs) != 4:
        return O.fail(key, where, 'a thermal has %d parts, expected 4' % len(outs))
    c = v['position']
    ro, ri, g = v['outer_diameter'] * 0.5, v['inner_diameter'] * 0.5, v['gap'] * 0.5
    sq = lambda q: (q[0] - c[0]) * (q[0] - c[0]) + (q[1] - c[1]) * (q[1] - c[1])
    seen = []
    for k, o in enumerate(outs):
        kk = '%s:part%d' % (key, k)
        tags(O, L, kk, o, units, 'on', where, 'thermal')
        es = edges(L, o)
        closed(O, kk, es, where, 'thermal part')
        for i, (a, b) in enumerate(es):
            O.equal('%s:radius%d' % (kk, i), sq(b), [ro * ro, ri * ri], where, 'squared distance of corner %d from the center' % i)
        seen.append([e[1] for e in es])
    # the four corners next to the gaps: half a gap from the axes of the turned cross
    for turn in (0.0, 90.0, 180.0, 270.0):
        corners = []
        for rad in (ri, ro):
            a = app('asin', g / rad) if not isinstance(g, Poly) else app('asin', g.div(Poly.of(rad)) if hasattr(Poly, 'div') else g / rad)
            rr = r * (math.pi / 180)
            for ang in (a + rr, math.pi / 2 - a + rr):
                q = (c[0] + app('cos', ang) * rad, c[1] + app('sin', ang) * rad)
                corners.append(rot(q, turn, c))
        for j, q in enumerate(corners):
            hit, unk = False, False
            for ps in seen:
                for x in ps:
                    e = pteq(x, q)
                    hit = hit or e is True
                    unk = unk or e is None
            kk = '%s:corner%d@%d' % (key, j, int(turn))
            if hit:
                O.ok(kk)
            elif unk:
                O.undecided(kk, 'cannot compare corners')
            else:
                O.fail(kk, where, 'no part of the thermal has a corner half a gap from the axis at %s' % show(q))


def statement(O, L):
    """A built macro statement converts its primitives exactly once."""
    S = 'gerber.gerber_statements:'
    for frm, meth, f, to in (('inch', 'to_metric', 25.4, 'metric'), ('metric', 'to_inch', 1 / 25.4, 'inch'), ('inch', 'to_inch', 1.0, 'inch'), ('metric', 'to_metric', 1.0, 'metric')):
        L.fresh()
        box = {}
        where = L.where(S + 'AMParamStmt', meth)

        def rd(st):
            pr = L.items(L.get(st, 'primitives'))
            return [L.get(pr[0], 'diameter'), L.get(pr[0], 'position'), L.get(pr[1], 'width'), L.get(pr[1], 'rotation'), L.get(st, 'units')]

        def go():
            st = L.new(S + 'AMParamStmt', 'AM', 'NAME', '1,1,$1,$2,$3*21,1,$4,$4,0,0,$5*')
            L.set(st, 'units', frm)
            mods = L.list([L.list([N('m%d' % i) for i in range(1, 6)])])
            g = L.call(st, 'build', mods)
            box['g'] = L.get(g, 'units')
            L.call(st, meth)
            box['a'] = rd(st)
            L.call(st, meth)
            box['aa'] = rd(st)
        oc = L.run(go)
        O.note(L)
        key = 'AMParamStmt:%s->%s' % (frm, to)
        if O.outcome(key, oc, where, meth):
            want = [N('m1') * f, (N('m2') * f, N('m3') * f), N('m4') * f, N('m5'), to]
            O.equal(key + ':group-units', box['g'], frm, where, 'units of the built group')
            for n, i in zip(('diameter', 'position', 'width', 'rotation', 'units'), range(5)):
                if O.equal(key + ':' + n, box['a'][i], want[i], where, '%s after %s()' % (n, meth)):
                    O.equal(key + ':' + n + ':aa', box['aa'][i], want[i], where, '%s after %s() twice' % (n, meth))


def back(O, L):
    """from_primitive keeps the geometry of the drawing primitive."""
    L.fresh()
    x, y, d, w, h, r = N('x'), N('y'), N('d', '+'), N('w', '+'), N('h', '+'), N('r')
    cases = [
        ('AMCirclePrimitive', lambda: L.new(P + 'Circle', (x, y), d), {'diameter': d, 'position': (x, y)}),
        ('AMVectorLinePrimitive', lambda: L.new(P + 'Line', (x, y), (w, h), L.new(P + 'Rectangle', (0, 0), d, h)), {'width': d, 'start': (x, y), 'end': (w, h), 'rotation': 0}),
        ('AMPolygonPrimitive', lambda: L.new(P + 'Polygon', (x, y), 6, d, rotation=r), {'vertices': 6, 'position': (x, y), 'diameter': d * 2, 'rotation': r}),
        ('AMCenterLinePrimitive', lambda: L.new(P + 'Rectangle', (x, y), w, h, rotation=r), {'width': w, 'height': h, 'center': (x, y), 'rotation': r}),
        ('AMOutlinePrimitive', lambda: outline(L), {'start_point': pt('a'), 'points': (pt('b'), pt('c'), pt('a')), 'rotation': 0}),
    ]
    for cls, mk, want in cases:
        L.fresh()
        where = L.where(A + cls, 'from_primitive')
        key = cls + ':from_primitive'
        oc = L.run(lambda: L.I.call(L.obj_from(A + cls + '.from_primitive'), [mk()], {}))
        O.note(L)
        if not O.outcome(key, oc, where, 'from_primitive', allow=()):
            continue
        o = oc.value
        for a, v in want.items():
            got = L.get(o, a)
            if a == 'points':
                got = tuple(L.items(got))
            O.equal('%s:%s' % (key, a), unround(got), v, where, '%s.%s' % (cls, a))
        O.equal(key + ':exposure', L.get(o, 'exposure'), 'on', where, 'exposure')


def unround(v):
    """Rounding to 6 decimals is accepted."""
    if isinstance(v, tuple):
        return tuple(unround(x) for x in v)
    if isinstance(v, Poly):
        for t in list(v.atoms() if hasattr(v, 'atoms') else []):
            pass
        a = only_atom(v)
        if a is not None and a.fn == 'round' and (len(a.args) < 2 or (is_const(a.args[1]) and a.args[1] >= 6)):
            return a.args[0]
    return v


def outline(L):
    a, b, c = pt('a'), pt('b'), pt('c')
    ap = L.new(P + 'Circle', (0, 0), 0)
    return L.new(P + 'Outline', L.list([L.new(P + 'Line', s, e, ap) for s, e in ((a, b), (b, c), (c, a))]))


def group(O, L):
    """A group holds the shapes of its primitives in order."""
    kinds = [('AMCommentPrimitive', [0, 'text']), ('AMCirclePrimitive', [1, 'on', N('d1', '+'), pt('q')]),
             ('AMPolygonPrimitive', [5, 'off', 5, pt('w'), N('d2', '+'), 0]), ('AMThermalPrimitive', [7, pt('t'), N('od', '+') + N('id', '+'), N('id', '+'), N('gap', '+'), 0]),
             ('AMCirclePrimitive', [1, 'off', N('d3', '+'), pt('z')])]
    want = ['Circle', 'Polygon', 'Outline', 'Outline', 'Outline', 'Outline', 'Circle']
    L.fresh()
    box = {}

    def go():
        g = L.new(P + 'AMGroup', L.list([L.new(A + c, *a) for c, a in kinds]), units='metric')
        ps = L.items(L.get(g, 'primitives'))
        box['cls'] = tuple(L.cls_of(p) for p in ps)
        box['pol'] = tuple(L.get(p, 'level_polarity') for p in ps)
        box['units'] = tuple(L.get(p, 'units') for p in ps)
    oc = L.run(go)
    where = L.where(P + 'AMGroup', '__init__')
    if O.outcome('AMGroup:order', oc, where, 'AMGroup()'):
        O.equal('AMGroup:order', box['cls'], tuple(want), where, 'shapes of a group')
        O.equal('AMGroup:polarity', box['pol'], ('dark', 'clear') + ('dark',) * 4 + ('clear',), where, 'polarities in a group')
        O.equal('AMGroup:units', box['units'], ('metric',) * 7, where, 'units in a group')
