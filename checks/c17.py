"""C17 rendered images show what the primitives cover."""
import itertools
import math
import os

from sa.lab import *
from sa.par import parallel
from .picture import *
from .strs import *

RULE = ('Abstract interpretation of the cairo context with a recording model of the cairo library: every kind of primitive with every hole, polarity, inversion '
        'and mirroring, and pairs of primitives, is rendered at symbolic places, sizes, scale and origin; the areas painted on the layer, in device '
        'coordinates, are compared with the areas the primitives cover, the operator with the polarity, and the clip region is proved to contain the '
        'primitive. Layers, colors, background, bounds and output are compared over whole rendering runs.')
ASSUMPTIONS = ['cairo paints as documented (antialiasing and rounding to pixels are its own)', 'vertices of primitives and areas of lines drawn with rectangular apertures are those of C02']

CTX = 'gerber.render.cairo_backend:GerberCairoContext'
PR = 'gerber.primitives:'
FILE = 'gerber/render/cairo_backend.py'
S, OX, OY, W, H = sym('scale', '+'), sym('ox'), sym('oy'), sym('w', '+'), sym('h', '+')
X, Y, X2, Y2 = sym('x'), sym('y'), sym('x2'), sym('y2')
D, A, B, R, HD, HW, HH = sym('d', '+'), sym('a', '+'), sym('b', '+'), sym('r', '+'), sym('hd', '+'), sym('hw', '+'), sym('hh', '+')
ANGLES = ((1, 0), (0, 1), (-1, 0), (0, -1), (.6, .8), (-.8, .6), (-.6, -.8), (.8, -.6), (math.cos(2e-4), math.sin(2e-4)))


def lab():
    return Lab(['gerber.render.cairo_backend', 'gerber.render.theme', 'gerber.primitives', 'gerber.layers', 'gerber.cam', 'recorder'], project=project())


# ------------------------------------------------------------------ expected areas, in board coordinates
def disk(c, r):
    return ('disk', c, r)


def area(*pts):
    return ('area', tuple(p if isinstance(p[0], str) else ('p', p) for p in pts))


def turned(pts, c, deg):
    if not deg:
        return pts
    k, s = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    return [(c[0] + (P(p[0]) - c[0]) * k - (P(p[1]) - c[1]) * s, c[1] + (P(p[0]) - c[0]) * s + (P(p[1]) - c[1]) * k) for p in pts]


def box(c, w, h, deg=0):
    return area(*turned([(P(c[0]) + i * .5 * P(w), P(c[1]) + j * .5 * P(h)) for i, j in ((-1, -1), (1, -1), (1, 1), (-1, 1))], c, deg))


def hull(shapes):
    """Bounding box of disks and polygons as lists of candidate extremes."""
    xs, ys = [], []
    for s in shapes:
        if s[0] == 'disk':
            for k in (-1, 1):
                xs.append(P(s[1][0]) + P(s[2]) * k)
                ys.append(P(s[1][1]) + P(s[2]) * k)
        else:
            m = P(s[2]) * .5 if s[0] == 'stroke' else P(0)
            my = B * .5 if s[0] == 'stroke' and eq(s[2], A + B) else m     # a rectangle reaches half its height
            for e in s[1]:
                if e[0] == 'p':
                    ps = [e[1]]
                else:
                    ps = [start_of(e), end_of(e)]
                    for q in range(4):
                        a = q * math.pi / 2
                        if ((a - e[3]) * e[5]) % (2 * math.pi) < e[4] - 1e-6:
                            ps.append((P(e[1][0]) + P(e[2]) * unit(a)[0], P(e[1][1]) + P(e[2]) * unit(a)[1]))
                for p in ps:
                    for k in (-1, 1):
                        xs.append(P(p[0]) + m * k)
                        ys.append(P(p[1]) + my * k)
    return xs, ys


def device(shape, mirror):
    """Board coordinates to device coordinates."""
    def pt(p):
        x = (P(p[0]) - OX) * S
        return (W * S - x if mirror else x, H * S - (P(p[1]) - OY) * S)

    def el(e):
        if e[0] == 'p':
            return ('p', pt(e[1]))
        a = e[3]
        if mirror:
            a = math.pi - a
        return ('arc', pt(e[1]), P(e[2]) * S, turn(-a), e[4], e[5] * (1 if mirror else -1))
    if shape[0] == 'disk':
        return ('disk', pt(shape[1]), P(shape[2]) * S)
    if shape[0] == 'area':
        return ('area', tuple(el(e) for e in shape[1]))
    return ('stroke', tuple(el(e) for e in shape[1]), P(shape[2]) * S, shape[3], shape[4])


def arc(c, r, i, j, way):
    """Arc around c from direction ANGLES[i] to ANGLES[j]."""
    a = [math.atan2(ANGLES[k][1], ANGLES[k][0]) for k in (i, j)]
    sweep = (a[1] - a[0]) * way % (2 * math.pi) or 2 * math.pi
    return ('arc', c, r, turn(a[0]), sweep, way)


def on(c, r, k):
    return (P(c[0]) + P(r) * ANGLES[k][0], P(c[1]) + P(r) * ANGLES[k][1])


HOLES = (('plain', {}), ('round', {'hole_diameter': HD}), ('rect', {'hole_width': HW, 'hole_height': HH}))


def holes(c, h, deg):
    out = []
    if 'hole_diameter' in h:
        out.append(('clear', disk(c, HD * .5)))
    if 'hole_width' in h:
        out.append(('clear', box(c, HW, HH, deg)))
    return out


def cases(thorough):
    """(key, make(L, polarity) -> primitive, [[(operator, shape)] per painted mask]).  A make returns None if the primitive cannot be built."""
    c = (X, Y)
    out = []

    def circle_ap(L, d=None):
        return L.new(PR + 'Circle', (0, 0), D if d is None else d)

    def rect_ap(L):
        return L.new(PR + 'Rectangle', (0, 0), A, B)
    # lines
    for name, e in (('line', (X2, Y2)), ('dot', c)):
        sh = ('stroke', (('p', c), ('p', e)), D, 'round', False) if name == 'line' else disk(c, D * .5)
        out.append((name, lambda L, pol, e=e: L.new(PR + 'Line', c, e, circle_ap(L), level_polarity=pol), [('over', sh)]))
    for name, e in (('line right', (X + R, Y)), ('line up', (X, Y + R)), ('line diagonal', (X + R, Y - R))):
        out.append((name + ' with rectangle', lambda L, pol, e=e: L.new(PR + 'Line', c, e, rect_ap(L), level_polarity=pol), 'vertices'))
        sh = ('stroke', (('p', c), ('p', e)), D, 'round', False)
        out.append((name, lambda L, pol, e=e: L.new(PR + 'Line', c, e, circle_ap(L), level_polarity=pol), [('over', sh)]))
    # arcs
    n = range(8)
    for i, j, way, ap in [(i, j, way, ap) for i, j in ((0, 8), (8, 0)) for way in (1, -1) for ap in ('circle', 'rectangle')] + list( itertools.product(n, n, (1, -1), ('circle', 'rectangle'))):
        if not thorough and max(i, j) < 8 and (ap == 'rectangle' and (i + j) % 3 or (i * 3 + j) % 2 and i != j):
            continue
        for q in ('multi-quadrant', 'single-quadrant') if i != j else ('multi-quadrant',):
            if q == 'single-quadrant' and (ap == 'rectangle' or arc(c, R, i, j, way)[4] > math.pi / 2 + 1e-6):
                continue
            e = arc(c, R, i, j, way)
            el = (e,)
            wd = D if ap == 'circle' else None
            sh = ('stroke', el, wd, 'round', False)
            if ap != 'circle':
                sh = ('stroke', el, 'max', 'square' if i != j else 'round', False)
            out.append(('arc %d to %d %s %s %s' % (i, j, 'ccw' if way > 0 else 'cw', ap, q),
                        lambda L, pol, i=i, j=j, way=way, ap=ap, q=q: L.new(PR + 'Arc', on(c, R, i), on(c, R, j), c, 'counterclockwise' if way > 0 else 'clockwise',
                                                                           circle_ap(L) if ap == 'circle' else L.new(PR + 'Rectangle', (0, 0), A + B, B), q, level_polarity=pol), [('over', sh)]))
    # regions
    def line(L, a, b):
        return L.new(PR + 'Line', a, b, None)

    def arc_(L, i, j, way, cc=c):
        return L.new(PR + 'Arc', on(cc, R, i), on(cc, R, j), cc, 'counterclockwise' if way > 0 else 'clockwise', None, 'multi-quadrant')
    poly = [c, (X + R, Y), (X + R, Y + D), (X, Y + D)]
    for kind in ('Region', 'Outline'):
        ap = (lambda L: circle_ap(L, 0)) if kind == 'Outline' else (lambda L: None)
        tri = [c, (X2, Y2), (X + R, Y)]
        for name, ps in (('of lines', poly), ('triangle', tri)):
            out.append(('%s %s' % (kind, name), lambda L, pol, kind=kind, ps=ps, ap=ap: L.new(
                PR + kind, L.list([L.new(PR + 'Line', a, b, ap(L)) for a, b in zip(ps, ps[1:] + ps[:1])]), level_polarity=pol), [('over', area(*ps))]))
    # a contour that does not return to its start is closed by filling it
    out.append(('Region left open', lambda L, pol: L.new(PR + 'Region', L.list([line(L, a, b) for a, b in zip(poly, poly[1:])]), level_polarity=pol), [('over', area(*poly))]))
    for way in (1, -1):
        for i, j in ((0, 1), (4, 6), (2, 7), (5, 3), (1, 0), (0, 8), (8, 0)):
            out.append(('Region with arc %d to %d %s' % (i, j, way),
                        lambda L, pol, way=way, i=i, j=j: L.new(PR + 'Region', L.list([line(L, c, on(c, R, i)), arc_(L, i, j, way), line(L, on(c, R, j), c)]), level_polarity=pol),
                        [('over', area(c, arc(c, R, i, j, way)))]))
        out.append(('Region of a circle %s' % way, lambda L, pol, way=way: L.new(PR + 'Region', L.list([arc_(L, 0, 0, way)]), level_polarity=pol), [('over', disk(c, R))]))
        out.append(('Region of two arcs %s' % way, lambda L, pol, way=way: L.new(PR + 'Region', L.list([arc_(L, 0, 4, way), arc_(L, 4, 0, way)]), level_polarity=pol),
                    [('over', area(arc(c, R, 0, 4, way), arc(c, R, 4, 0, way)))]))
    # flashes
    for hn, h in HOLES:
        for deg in (0, 30, 90):
            if deg and hn != 'rect':
                continue
            out.append(('circle %s %s' % (hn, deg), lambda L, pol, h=h, deg=deg: L.new(PR + 'Circle', c, D, level_polarity=pol, rotation=deg, **h), [('over', disk(c, D * .5))] + holes(c, h, deg)))
        for deg in (0, 30, 90, 135):
            out.append(('rectangle %s %s' % (hn, deg), lambda L, pol, h=h, deg=deg: L.new(PR + 'Rectangle', c, A, B, level_polarity=pol, rotation=deg, **h), [('over', box(c, A, B, deg))] + holes(c, h, deg)))
        for k, (w, hh) in enumerate(((A + B, B), (B, A + B), (A, A))):
            d = [(P(w) - B) * .5, P(0)] if k == 0 else [P(0), (P(hh) - B) * .5] if k == 1 else [P(0), P(0)]
            r = B * .5 if k < 2 else A * .5
            ends = [(c[0] + d[0] * i, c[1] + d[1] * i) for i in (-1, 1)]
            if k < 2:
                ob = ('stroke', (('p', ends[0]), ('p', ends[1])), r * 2, 'round', False)
            else:
                ob = disk(c, r)
            out.append(('obround %s %d' % (hn, k), lambda L, pol, h=h, w=w, hh=hh: L.new(PR + 'Obround', c, w, hh, level_polarity=pol, **h), [('over', ob)] + holes(c, h, 0)))
        for n, deg in ((3, 0), (4, 45), (6, 30), (12, 0)):
            v = [(X + R * math.cos(math.radians(deg + 360. * i / n)), Y + R * math.sin(math.radians(deg + 360. * i / n))) for i in range(n)]
            out.append(('polygon %s %d %s' % (hn, n, deg), lambda L, pol, h=h, n=n, deg=deg: L.new(PR + 'Polygon', c, n, R, level_polarity=pol, rotation=deg, **h), [('over', area(*v))] + holes(c, h, deg)))
    # drills
    out.append(('drill', lambda L, pol: _pol(L, L.new(PR + 'Drill', c, D), pol), [('over', disk(c, D * .5))]))
    for name, e in (('slot', (X2, Y2)), ('slot up', (X, Y + R)), ('slot of no length', c)):
        sh = ('stroke', (('p', c), ('p', e)), D, 'round', False) if e != c else disk(c, D * .5)
        out.append((name, lambda L, pol, e=e: _pol(L, L.new(PR + 'Slot', c, e, D), pol), [('over', sh)]))
    return out


def _pol(L, o, pol):
    L.set(o, 'level_polarity', pol)
    return o


def wanted(L, prim, masks, mirror):
    """Expected shapes in board coordinates, then in device coordinates."""
    if masks == 'vertices':
        v = L.get(prim, 'vertices')
        masks = [('over', area(*[tuple(L.items(p)) for p in L.items(v)]))]
    out = []
    for op, s in masks:
        if s[0] == 'stroke' and isinstance(s[2], str):
            s = s[:2] + (A + B,) + s[3:]
        out.append((op, s))
    return out, [(op, device(s, mirror)) for op, s in out]


def setup(L, invert=False, mirror=False):
    c = L.new(CTX, S)
    L.call(c, 'set_bounds', ((OX, OX + W), (OY, OY + H)))
    L.set(c, 'invert', invert)
    L.call(c, 'new_render_layer', mirror=mirror)
    return c


def check_ops(O, L, key, where, ops, expected, invert, mirror, what):
    """ops painted on a layer against [(polarity, board shapes, device masks)]."""
    if invert:
        if not ops or ops[0][3][0] != 'paint' or ops[0][0] != 'over' or ops[0][1][0] != 'rgba' or ops[0][1][4] != 1.0 or ops[0][2] or ops[0][3][1] != 1.0:
            O.fail(key + ':full', where, 'the inverted layer does not start full (%s)' % what)
            return
        O.ok(key + ':full')
        ops = ops[1:]
    ops = [o for o in ops if not (o[3][0] == 'mask' and not o[3][1])]
    if len(ops) != len(expected):
        O.fail(key + ':count', where, '%s paints %d areas, expected %d' % (what, len(ops), len(expected)))
        return
    for n, ((op, source, clips, did), (pol, board, masks)) in enumerate(zip(ops, expected)):
        k = '%s:%d' % (key, n)
        want = 'over' if (pol == 'dark') != invert else 'clear'
        if did[0] != 'mask':
            O.fail(k, where, '%s is painted by %s' % (what, did))
            continue
        O.equal(k + ':operator', op, [want] if want == 'clear' else ['over', 'source'] if False else [want], where, 'operator for %s' % what)
        if source[0] != 'rgba' or source[4] != 1.0:
            O.fail(k + ':source', where, '%s is painted with %s instead of fully' % (what, show(source)))
        r = compare_masks(did[1], masks)
        if r is True:
            O.ok(k + ':area', '%s' % show(did[1]))
        elif r is None:
            O.undecided(k + ':area', 'area painted for %s is not decided' % what)
        else:
            O.fail(k + ':area', where, 'area painted for %s is %s, expected %s' % (what, show_mask(did[1]), show_mask(masks)))
        xs, ys = hull([s for o, s in board if o == 'over'])
        xs = [device(area((x, OY)), mirror)[1][0][1][0] for x in extremes(xs)]
        ys = [device(area((OX, y)), mirror)[1][0][1][1] for y in extremes(ys)]
        good = True
        for clip in clips:
            c = covers(clip, xs, ys)
            if c is not True:
                good = c if good is not False else False
        if good is True:
            O.ok(k + ':clip')
        elif good is None:
            O.undecided(k + ':clip', 'clip region of %s not decided' % what)
        else:
            O.fail(k + ':clip', where, 'the clip region of %s cuts it off: %s' % (what, show(clips)))


def show_mask(m):
    return '; '.join('%s %s' % (op, ' '.join(show(x) for x in s)) for op, s in m)[:300]


def run(O, thorough):
    L = lab()
    allc = cases(thorough)
    jobs = [allc[i::16] for i in range(16)]
    pairs = [c for c in allc if c[0] in ('line', 'line up with rectangle', 'arc 0 to 4 ccw circle multi-quadrant', 'Region of lines', 'Region of two arcs 1', 'circle round 0', 'circle plain 0', 'rectangle plain 0', 'rectangle rect 30', 'obround plain 0',
                                         'obround round 1', 'polygon plain 6 30', 'polygon rect 4 45', 'drill', 'slot')]
    seqs = [(a, b) for a in pairs for b in pairs]
    jobs += [('pairs', seqs[i::8]) for i in range(8)]
    from .c17run import RUNS
    jobs += sorted(RUNS)

    def work(job):
        if isinstance(job, str):
            RUNS[job](O, L)
        elif job[0] == 'pairs':
            for a, b in job[1]:
                for pa, pb in (('dark', 'clear'), ('clear', 'dark'), ('dark', 'dark')):
                    render(O, L, '%s %s, %s %s' % (pa, a[0], pb, b[0]), [(a, pa), (b, pb)], False, False)
                render(O, L, 'inverted mirrored %s, %s' % (a[0], b[0]), [(a, 'dark'), (b, 'clear')], True, True)
        else:
            for c in job:
                for pol, inv, mir in itertools.product(('dark', 'clear'), (False, True), (False, True)):
                    render(O, L, '%s %s%s%s' % (pol, c[0], ' inverted' if inv else '', ' mirrored' if mir else ''), [(c, pol)], inv, mir)
        O.note(L)
        L.I.call_log.clear()
    parallel(O, jobs, work)


def render(O, L, key, cs, inv, mir):
    L.fresh()
    kinds = [c[0].split()[0].lower() for c, _ in cs]
    where = L.where(CTX, '_render_' + kinds[0].replace('outline', 'region').replace('dot', 'line'))

    def go():
        ctx = setup(L, inv, mir)
        layer = L.get(ctx, 'active_layer')
        exp = []
        for (name, make, masks), pol in cs:
            p = make(L, pol)
            L.call(ctx, 'render', p)
            exp.append((pol,) + wanted(L, p, masks, mir))
        return layer_ops(L, layer), exp, (L.get(layer, 'width'), L.get(layer, 'height'))
    oc = L.run(go)
    if not O.outcome(key, oc, where, 'rendering ' + key):
        return
    ops, exp, size = oc.value
    O.equal(key + ':size', size, (W * S, H * S), L.where(CTX, 'new_render_layer'), 'size of the layer')
    check_ops(O, L, key, where, ops, exp, inv, mir, key)
