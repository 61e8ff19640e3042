"""C30 swept outlines: convex hulls of points and of strokes."""
import itertools
import math

from sa.lab import *
from sa.par import parallel

RULE = ('Abstract interpretation of utils.convex_hull and Line.vertices: the corners found for every set of points of a lattice (in several orders, with repeated points), for points of '
        'regular figures with points inside them, and for strokes of rectangles and polygons in every direction class, compared with the corners of the hull by the definition '
        '(points not inside the others, in order of angle).')
ASSUMPTIONS = ['the choices of the algorithm depend on the relative directions of the points only; those of the enumerated sets stand for all']
U = 'gerber.utils:'
P = 'gerber.primitives:'
EPS = 1e-7


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def corners(points):
    """Corners of the hull, counter-clockwise, by the definition: a pair of points is an edge if all others
    are on its left or between the two."""
    pts = []
    for p in points:
        if not any(abs(p[0] - q[0]) < EPS and abs(p[1] - q[1]) < EPS for q in pts):
            pts.append(p)
    nxt = {}
    for a in pts:
        for b in pts:
            if a is b:
                continue
            ok = True
            for c in pts:
                if c is a or c is b:
                    continue
                k = cross(a, b, c)
                if k < -EPS:
                    ok = False
                elif k <= EPS:
                    # on the line: inside the edge only
                    t = (c[0] - a[0]) * (b[0] - a[0]) + (c[1] - a[1]) * (b[1] - a[1])
                    if t < 0 or t > (b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2:
                        ok = False
            if ok:
                nxt[a] = b
    if not nxt:
        return None
    start = min(nxt)
    out, p = [], start
    while True:
        out.append(p)
        p = nxt.get(p)
        if p is None or len(out) > len(pts):
            return None
        if p == start:
            return out if len(out) >= 3 else None


def plain(L, v):
    """Lists of pairs of numbers."""
    if isinstance(v, Ref):
        v = L.items(v)
    out = []
    for p in v:
        if isinstance(p, Ref):
            p = L.items(p)
        if len(p) != 2:
            return None
        q = []
        for x in p:
            x = numeval(x, {}) if isinstance(x, Poly) else x
            if isinstance(x, bool) or not isinstance(x, (int, float)):
                return None
            q.append(float(x))
        out.append(tuple(q))
    return out


def near(a, b):
    return abs(a[0] - b[0]) < 1e-6 and abs(a[1] - b[1]) < 1e-6


def essential(ps):
    """Without points that lie, up to rounding, on the way between their neighbours."""
    ps = list(ps)
    i = 0
    while len(ps) > 3 and i < len(ps):
        a, b, c = ps[i - 1], ps[i], ps[(i + 1) % len(ps)]
        if abs(cross(a, b, c)) < 1e-9 and (b[0] - a[0]) * (c[0] - b[0]) + (b[1] - a[1]) * (c[1] - b[1]) >= -1e-9:
            del ps[i]
            i = 0
        else:
            i += 1
    return ps


def judge(O, L, key, oc, want, where, what, exact=True):
    if not O.outcome(key, oc, where, what):
        return
    try:
        got = plain(L, oc.value)
    except Exception:
        got = None
    if got is None:
        O.undecided(key, 'the corners are not determined: %s' % show(oc.value)[:80])
        return
    if not exact:
        got = essential(got)
    n = len(want)
    if len(got) == n:
        for seq in (want, want[::-1]):
            for k in range(n):
                if all(near(got[i], seq[(i + k) % n]) for i in range(n)):
                    O.ok(key, '%d corners' % n)
                    return
    O.fail(key, where, '%s: corners %s, the hull has %s' % (what, fmt(got), fmt(want)))


def fmt(ps):
    return ' '.join('(%g, %g)' % (round(p[0], 6) + 0, round(p[1], 6) + 0) for p in ps)


def point_sets(thorough):
    lat = [(float(x), float(y)) for x in range(3) for y in range(3)]
    for n in range(3, 10):
        for sub in itertools.combinations(lat, n):
            if corners(sub) is None:
                continue
            yield sub
            yield sub[::-1]
            yield sub[n // 2:] + sub[:n // 2]
            yield sub[::2] + sub[1::2]
            if n <= 4:
                yield sub + sub
                yield sub + sub[:1]
                yield tuple(p for p in sub for _ in range(2))
            if n == 3:
                for o in itertools.permutations(sub):
                    yield o
    for k in (3, 4, 5, 6, 7, 8, 12):
        for turn in (0.1, 0.5, 2.0):
            ring = [(3.0 + 2 * math.cos(turn + 2 * math.pi * i / k), -1.0 + 2 * math.sin(turn + 2 * math.pi * i / k)) for i in range(k)]
            inner = [(3.0 + 0.5 * math.cos(i), -1.0 + 0.5 * math.sin(i)) for i in range(4)]
            yield tuple(ring)
            yield tuple(ring[::-1] + inner)
            yield tuple(inner[:2] + ring[k // 2:] + inner[2:] + ring[:k // 2])
            if k > 4:
                mids = [((ring[i][0] + 3.0) / 2, (ring[i][1] - 1.0) / 2) for i in range(k)]
                yield tuple(x for p in zip(ring, mids) for x in p)
    if thorough:
        wide = [(float(x), float(y)) for x in range(4) for y in range(4)]
        for n in (4, 5):
            for sub in itertools.combinations(wide, n):
                if corners(sub) is not None:
                    yield sub


DIRS = [(dx * s, dy * t) for dx, dy in ((0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (1.0, 1.0), (2.0, 1.0), (1.0, 2.0), (0.25, 3.0), (3.0, 0.25), (5.0, 4.0), (0.5, 0.5), (0.0625, 0.03125), (0.03125, 0.125)) for s in (1, -1) for t in (1, -1)]
DIRS = sorted(set((x + 0.0, y + 0.0) for x, y in DIRS))
SIZES = ((1.0, 1.0), (2.0, 1.0), (1.0, 2.0), (0.5, 3.0), (4.0, 0.25))


def run(O, thorough):
    stubs = {U + 'convex_hull': None}
    L = Lab(['gerber.utils', 'gerber.primitives'], stubs=stubs)
    wh = L.where(U + 'convex_hull')
    wv = L.where(P + 'Line', 'vertices')
    hull = L.obj_from(U + 'convex_hull')
    jobs = []
    sets = list(dict.fromkeys(point_sets(thorough)))
    for i in range(0, len(sets), 40):
        jobs.append(('sets', sets[i:i + 40]))
    for size in SIZES:
        for d in DIRS:
            jobs.append(('rect', (size, d)))
    for n in (3, 4, 5, 6, 8):
        for turn in (0, 20.0, 90.0):
            for d in DIRS:
                if d != (0.0, 0.0):
                    jobs.append(('poly', (n, turn, d)))

    def one(job):
        kind, arg = job
        if kind == 'sets':
            for pts in arg:
                key = 'points %s' % fmt(pts)
                for form in ('tuple', 'list'):
                    if form == 'list' and len(pts) > 4:
                        continue
                    L.fresh()
                    oc = L.run(lambda: L.I.call(hull, [tuple(pts) if form == 'tuple' else L.list(pts)], {}))
                    judge(O, L, key + (' as a list' if form == 'list' else ''), oc, corners(pts), wh, 'convex_hull of the points %s' % fmt(pts), exact=all(x == round(x) for p in pts for x in p))
        else:
            start = (1.0, -2.0)
            if kind == 'rect':
                (w, h), d = arg
                what = 'line by (%g, %g) with a %g by %g rectangle' % (d + (w, h))
                shape = [(a * w / 2, b * h / 2) for a in (-1, 1) for b in (-1, 1)]
            else:
                n, turn, d = arg
                what = 'line by (%g, %g) with a %d-sided polygon turned by %g' % (d + (n, turn))
                shape = None
            end = (start[0] + d[0], start[1] + d[1])
            for back in (False, True):
                L.fresh()
                box = {}

                def go():
                    if kind == 'rect':
                        ap = L.new(P + 'Rectangle', (0.0, 0.0), w, h)
                    else:
                        ap = L.new(P + 'Polygon', (0.0, 0.0), n, 1.5, 0, rotation=turn)
                        box['shape'] = plain(L, L.get(ap, 'vertices'))
                    s, e = (end, start) if back else (start, end)
                    return L.get(L.new(P + 'Line', s, e, ap), 'vertices')
                oc = L.run(go)
                sh = shape or box.get('shape')
                if sh is None:
                    O.undecided(what, 'the corners of the aperture are not determined')
                    continue
                want = corners([(p[0] + a, p[1] + b) for p in (start, end) for a, b in sh])
                judge(O, L, what + (' backwards' if back else ''), oc, want, wv, what, exact=kind == 'rect')
        L.I.call_log and O.note(L)
        L.I.call_log.clear()
    parallel(O, jobs, one)
    O.note(L)
