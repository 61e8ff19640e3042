"""C07 bounding boxes and outlines of shapes."""
import math
from sa.lab import *
from .prims import specs, read, Spec, dir_arc, on_circle, circle, rect, pt, N, P as PM, _amgroup, _region, _outline

RULE = ('Abstract interpretation of bounding_box, bounding_box_no_aperture, vertices, sweep_angle of every primitive class on labelled '
        'dimensions; rotations are enumerated over a fixed set of angles, arcs over a grid of start/end directions (all sign/quadrant cases) '
        'with labelled centre and radius. The result must equal the geometric definition of the shape as a symbolic expression; every box '
        'must have min <= max.')
ASSUMPTIONS = ['rotations and arc directions between the enumerated angles behave like their neighbours in the same quadrant',
               'primitive lists of length 1, 2, 3 stand for all lengths']


def trig(deg):
    c, s = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    return (0.0 if abs(c) < 1e-12 else c), (0.0 if abs(s) < 1e-12 else s)


def box(x, y, hw, hh):
    return ((x - hw, x + hw), (y - hh, y + hh))


def mn(*a):
    return num_minmax('min', list(a))


def mx(*a):
    return num_minmax('max', list(a))


def hull(pts):
    return ((mn(*[p[0] for p in pts]), mx(*[p[0] for p in pts])), (mn(*[p[1] for p in pts]), mx(*[p[1] for p in pts])))


def grow(b, rx, ry):
    return ((b[0][0] - rx, b[0][1] + rx), (b[1][0] - ry, b[1][1] + ry))


def rotpts(pts, c, deg):
    co, si = trig(deg)
    return [(c[0] + (x - c[0]) * co - (y - c[1]) * si, c[1] + (x - c[0]) * si + (y - c[1]) * co) for x, y in pts]


def arc_points(d, a0, a1):
    """Axis directions met by the arc from a0 to a1 (full circle if equal)."""
    if d == 'clockwise':
        a0, a1 = a1, a0
    sweep = (a1 - a0) % 360 or 360
    return [k for k in (0, 90, 180, 270) if (k - a0) % 360 <= sweep]


def arc_box(d, a0, a1, q):
    pts = [on_circle(a0), on_circle(a1)]
    if q == 'multi-quadrant':
        pts += [on_circle(k) for k in arc_points(d, a0, a1)]
    return hull(pts)


def run(O, thorough):
    L = Lab(['gerber.primitives', 'gerber.am_statements'])
    px, py = pt('p')
    w, h, d = N('w', '+'), N('h', '+'), N('d', '+')
    ap = N('ap.d', '+')

    def check(key, build, attr, want, cls, tol=False):
        L.fresh()
        oc = L.run(lambda: L.get(build(L), attr))
        O.note(L)
        where = L.where('gerber.primitives:' + cls, attr)
        if O.outcome(key, oc, where, '%s.%s' % (cls, attr)):
            v = oc.value
            if attr == 'vertices':
                if not isinstance(v, Ref) and not isinstance(v, tuple):
                    O.equal(key, v, want, where, '%s.%s' % (cls, attr))
                    return
                items = L.items(v)
                v = tuple(sorted(items, key=vkey))
                want = tuple(sorted(want, key=vkey))
                if len(items) == len(want) and all(any(equiv(a, b) for b in want) for a in items) and all(any(equiv(a, b) for b in items) for a in want):
                    O.ok(key, show(v))
                    return
            O.equal(key, v, want, where, '%s.%s (%s)' % (cls, attr, key))

    def both(key, build, want, cls, noap=None):
        check(key + ':bounding_box', build, 'bounding_box', want, cls)
        check(key + ':bounding_box_no_aperture', build, 'bounding_box_no_aperture', noap if noap is not None else want, cls)

    new = lambda cls, *a, **k: (lambda L: L.new(PM + cls, *a, **k))
    # straight segments
    s, e = pt('s'), pt('e')
    seg = hull([s, e])
    both('Line/round', lambda L: L.new(PM + 'Line', s, e, circle(L, 'inch')), grow(seg, ap * 0.5, ap * 0.5), 'Line', seg)
    both('Line/rect', lambda L: L.new(PM + 'Line', s, e, rect(L, 'inch')), grow(seg, N('ap.w', '+') * 0.5, N('ap.h', '+') * 0.5), 'Line', seg)
    both('Line/obround', lambda L: L.new(PM + 'Line', s, e, L.new(PM + 'Obround', (0.0, 0.0), w, h)), grow(seg, w * 0.5, h * 0.5), 'Line', seg)
    both('Slot', new('Slot', s, e, d), grow(seg, d * 0.5, d * 0.5), 'Slot')
    hw, hh = N('ap.w', '+') * 0.5, N('ap.h', '+') * 0.5
    check('Line/rect:vertices', lambda L: L.new(PM + 'Line', s, e, rect(L, 'inch')), 'vertices',
          tuple((q[0] + i * hw, q[1] + j * hh) for q in (s, e) for i in (-1, 1) for j in (-1, 1)), 'Line')
    check('Line/round:vertices', lambda L: L.new(PM + 'Line', s, e, circle(L, 'inch')), 'vertices', None, 'Line')
    # round shapes
    for cls in ('Circle', 'Drill', 'RoundButterfly'):
        both(cls, new(cls, (px, py), d), box(px, py, d * 0.5, d * 0.5), cls)
    both('SquareButterfly', new('SquareButterfly', (px, py), d), box(px, py, d * 0.5, d * 0.5), 'SquareButterfly')
    idm, odm = N('id', '+'), N('id', '+') + N('od', '+')
    both('SquareRoundDonut', new('SquareRoundDonut', (px, py), idm, odm), box(px, py, odm * 0.5, odm * 0.5), 'SquareRoundDonut')
    for shape in ('round', 'square', 'octagon', 'hexagon'):
        f = math.sqrt(3) / 2 if shape == 'hexagon' else 1.0
        both('Donut/' + shape, new('Donut', (px, py), shape, idm, odm), box(px, py, odm * (0.5 * f), odm * 0.5), 'Donut')
    # shapes with a rotation
    rots = [0, 30, 45, 90, 135, 180, 210, 270, 315, 360, -90] if not thorough else list(range(-360, 361, 15))
    ch, rr, pr = N('ch', '+'), N('rr', '+'), N('pr', '+')
    for r in rots:
        co, si = trig(r)
        aw, ah = w * abs(co) + h * abs(si), h * abs(co) + w * abs(si)
        b = box(px, py, aw * 0.5, ah * 0.5)
        tag = '@%d' % r
        rectpts = [(px + i * w * 0.5, py + j * h * 0.5) for i, j in ((1, 1), (-1, 1), (-1, -1), (1, -1))]
        both('Rectangle' + tag, new('Rectangle', (px, py), w, h, rotation=r), b, 'Rectangle')
        check('Rectangle' + tag + ':vertices', new('Rectangle', (px, py), w, h, rotation=r), 'vertices', tuple(rotpts(rectpts, (px, py), r)), 'Rectangle')
        check('Rectangle' + tag + ':lower_left', new('Rectangle', (px, py), w, h, rotation=r), 'lower_left', (b[0][0], b[1][0]), 'Rectangle')
        check('Rectangle' + tag + ':upper_right', new('Rectangle', (px, py), w, h, rotation=r), 'upper_right', (b[0][1], b[1][1]), 'Rectangle')
        both('Obround' + tag, new('Obround', (px, py), w, h, rotation=r), b, 'Obround')
        both('Diamond' + tag, new('Diamond', (px, py), w, h, rotation=r), b, 'Diamond')
        dia = [(px, py + h * 0.5), (px + w * 0.5, py), (px, py - h * 0.5), (px - w * 0.5, py)]
        check('Diamond' + tag + ':vertices', new('Diamond', (px, py), w, h, rotation=r), 'vertices', tuple(rotpts(dia, (px, py), r)), 'Diamond')
        both('RoundRectangle' + tag, new('RoundRectangle', (px, py), w, h, rr, (True, True, False, False), rotation=r), b, 'RoundRectangle')
        for corners in ((True, True, True, True), (True, False, False, True), (False, False, True, False)):
            cp = []
            for (cx, cy), (i, j), on in zip(rectpts, ((1, 1), (-1, 1), (-1, -1), (1, -1)), corners):
                cp += [(cx - i * ch, cy), (cx, cy - j * ch)] if on else [(cx, cy)]
            nm = 'ChamferRectangle' + tag + '/' + ''.join('x' if c else '-' for c in corners)
            both(nm, new('ChamferRectangle', (px, py), w, h, ch, corners, rotation=r), b, 'ChamferRectangle')
            check(nm + ':vertices', new('ChamferRectangle', (px, py), w, h, ch, corners, rotation=r), 'vertices', tuple(rotpts(cp, (px, py), r)), 'ChamferRectangle')
        ew = num_fn('sqrt', (w * co) * (w * co) + (h * si) * (h * si))
        eh = num_fn('sqrt', (w * si) * (w * si) + (h * co) * (h * co))
        both('Ellipse' + tag, new('Ellipse', (px, py), w, h, rotation=r), box(px, py, ew * 0.5, eh * 0.5), 'Ellipse')
        for n in (3, 4, 6):
            both('Polygon%d%s' % (n, tag), new('Polygon', (px, py), n, pr, rotation=r), box(px, py, pr, pr), 'Polygon')
            vs = []
            for i in range(n):
                c_, s_ = trig(r + 360.0 * i / n)
                vs.append((px + pr * c_, py + pr * s_))
            check('Polygon%d%s:vertices' % (n, tag), new('Polygon', (px, py), n, pr, rotation=r), 'vertices', tuple(vs), 'Polygon')
    # obround made of a bar and two caps, for both orientations
    for orient, bw, bh in (('vertical', w, w + h), ('horizontal', w + h, h)):
        def sub(L, bw=bw, bh=bh):
            o = L.new(PM + 'Obround', (px, py), bw, bh)
            sh = L.get(o, 'subshapes')
            out = []
            for k in ('circle1', 'circle2', 'rectangle'):
                q = L.I.bm.getitem(sh, k)
                out.append((L.get(q, 'position'), L.get(q, 'diameter') if k != 'rectangle' else (L.get(q, 'width'), L.get(q, 'height'))))
            return tuple(out)
        L.fresh()
        oc = L.run(lambda: sub(L))
        key = 'Obround/%s:subshapes' % orient
        where = L.where('gerber.primitives:Obround', 'subshapes')
        if O.outcome(key, oc, where, 'Obround.subshapes'):
            # the long side exceeds the short one by L
            if orient == 'vertical':
                ends, bar, cap = [(px, py + h * 0.5), (px, py - h * 0.5)], ((px, py), (w, h)), w
            else:
                ends, bar, cap = [(px + w * 0.5, py), (px - w * 0.5, py)], ((px, py), (w, h)), h
            got = oc.value
            if same_set([got[0][0], got[1][0]], ends):
                O.ok(key + ':caps')
            else:
                O.equal(key + ':caps', (got[0][0], got[1][0]), tuple(ends), where, 'cap centres')
            O.equal(key + ':cap size', (got[0][1], got[1][1]), (cap, cap), where, 'cap diameters')
            O.equal(key + ':bar', got[2], bar, where, 'bar')
    # arcs: every pair of directions on a grid
    grid = sorted(set(list(range(0, 360, 45)) + [30, 100, 200, 290])) if not thorough else sorted(set(list(range(0, 360, 15)) + [7, 98, 187, 275]))
    for dr in ('clockwise', 'counterclockwise'):
        for a0 in grid:
            for a1 in grid:
                for q in ('multi-quadrant', 'single-quadrant'):
                    if q == 'single-quadrant' and a0 // 90 != a1 // 90:
                        continue    # single-quadrant arcs stay in one quadrant
                    if q == 'single-quadrant' and ((a1 - a0) if dr == 'counterclockwise' else (a0 - a1)) < 0:
                        continue
                    b = arc_box(dr, a0, a1, q)
                    key = 'Arc/%s-%s@%d-%d' % (dr, q, a0, a1)
                    both(key, (lambda dr=dr, q=q, a0=a0, a1=a1: lambda L: dir_arc(dr, q, a0, a1)(L, 'inch'))(), grow(b, ap * 0.5, ap * 0.5), 'Arc', b)
                if a0 != a1:
                    sw = ((a1 - a0) if dr == 'counterclockwise' else (a0 - a1)) % 360
                    check('Arc/%s@%d-%d:sweep_angle' % (dr, a0, a1), lambda L: dir_arc(dr, 'multi-quadrant', a0, a1)(L, 'inch'), 'sweep_angle',
                          math.radians(sw), 'Arc')
    b = arc_box('clockwise', 130, 20, 'multi-quadrant')
    both('Arc/rect aperture', lambda L: dir_arc('clockwise', 'multi-quadrant', 130, 20, rect)(L, 'inch'), grow(b, hw, hh), 'Arc', b)
    # composites: the union of their parts
    for n in (1, 2, 3):
        pts = [pt('r%d' % i) for i in range(n + 1)]
        both('Region/%d' % n, lambda L: _region(n)(L, 'inch'), hull(pts), 'Region')
        pts = [pt('o%d' % i) for i in range(n)]
        both('Outline/%d' % n, lambda L: _outline(n)(L, 'inch'), grow(hull(pts), ap * 0.5, ap * 0.5), 'Outline')
        check('Outline/%d:vertices' % n, lambda L: _outline(n)(L, 'inch'), 'vertices', tuple(pts), 'Outline')
        hb = grow(hull(pts), ap * 0.5, ap * 0.5)
        check('Outline/%d:width' % n, lambda L: _outline(n)(L, 'inch'), 'width', hb[0][1] - hb[0][0], 'Outline')
    g, c, pp = pt('g'), pt('amc'), pt('amp')
    cd, pd = N('amc.d', '+') * 0.5, N('amp.d', '+') * 0.5
    cb = box(c[0] + g[0], c[1] + g[1], cd, cd)
    pb = box(pp[0] + g[0], pp[1] + g[1], pd, pd)
    both('AMGroup/circle', lambda L: _amgroup(['circle'])(L, 'inch'), cb, 'AMGroup')
    both('AMGroup/circle+poly', lambda L: _amgroup(['circle', 'poly'])(L, 'inch'),
         ((mn(cb[0][0], pb[0][0]), mx(cb[0][1], pb[0][1])), (mn(cb[1][0], pb[1][0]), mx(cb[1][1], pb[1][1]))), 'AMGroup')


def same_set(xs, ys):
    return len(xs) == len(ys) and all(any(equiv(x, y) for y in ys) for x in xs) and all(any(equiv(x, y) for x in xs) for y in ys)
