"""Pictures recorded by the cairo model, in a form that does not depend on how
they were drawn: painted areas in device coordinates."""
import math
import os

from sa.lab import *

MODELS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa', 'models')


def project():
    from sa.project import Project
    return Project(extra={'cairo': os.path.join(MODELS, 'cairo.py'), 'recorder': os.path.join(MODELS, 'recorder.py')})


def P(v):
    return Poly.of(v)


def eq(a, b):
    """Same number or point."""
    if isinstance(a, tuple):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return is_num(a) and is_num(b) and equiv(a, b) is True


def turn(a):
    return round(a % (2 * math.pi), 7) % round(2 * math.pi, 7)


def arc_el(c, r, a1, a2, way, lin):
    """Arc element from a path entry; None for angles the analysis does not know."""
    if not all(isinstance(a, (int, float)) for a in (a1, a2)):
        return ('arc?', c, r, a1, a2, way, lin)
    sweep = (a2 - a1) % (2 * math.pi) if way == 'ccw' else (a1 - a2) % (2 * math.pi)
    raw = a2 - a1 if way == 'ccw' else a1 - a2
    if raw != 0 and (sweep < 1e-12 or sweep > 2 * math.pi - 1e-6):
        sweep = 2 * math.pi
    if raw == 0:
        sweep = 0.0
    xx, yx, xy, yy = lin
    if not all(isinstance(v, (int, float)) for v in lin) or yx or xy or abs(abs(xx) - 1) > 1e-9 or abs(abs(yy) - 1) > 1e-9:
        return ('arc?', c, r, a1, a2, way, lin)
    flip = 1
    if xx < 0:
        a1, flip = math.pi - a1, -flip
    if yy < 0:
        a1, flip = -a1, -flip
    w = (1 if way == 'ccw' else -1) * flip
    return ('arc', c, r, turn(a1), round(sweep, 6), w)


def unit(a):
    """Direction at an angle; multiples of a quarter turn exactly."""
    return tuple(float(round(v)) if abs(v - round(v)) < 1e-6 else v for v in (math.cos(a), math.sin(a)))


def start_of(e):
    if e[0] == 'p':
        return e[1]
    c, s = unit(e[3])
    return (P(e[1][0]) + P(e[2]) * c, P(e[1][1]) + P(e[2]) * s)


def end_of(e):
    if e[0] == 'p':
        return e[1]
    c, s = unit(e[3] + e[5] * e[4])
    return (P(e[1][0]) + P(e[2]) * c, P(e[1][1]) + P(e[2]) * s)


def near(a, b):
    """Points equal but for rounding of angles."""
    for x, y in zip(a, b):
        d = P(P(x) - P(y))
        if any(abs(c) > 1e-5 for c in d.terms.values()):
            return False
    return True


def subpaths(path):
    """[(elements, closed)] of a recorded path."""
    out, cur, closed, first = [], [], False, None

    def flush():
        if cur:
            out.append((list(cur), closed))
        del cur[:]
    for e in path:
        if e[0] == 'M':
            flush()
            closed = False
            cur.append(('p', e[1]))
        elif e[0] == 'L':
            if closed:
                p = cur[0]
                flush()
                closed = False
                cur.append(p)
            cur.append(('p', e[1]))
        elif e[0] == 'A':
            cur.append(arc_el(*e[1:]))
        elif e[0] == 'Z':
            closed = True
        elif e[0] == 'N':
            flush()
            closed = False
    flush()
    return out


def tidy(els, closed):
    """Drop points the path is at anyway."""
    out = []
    for e in els:
        if e[0] == 'p' and out and near(end_of(out[-1]), e[1]):
            continue
        if e[0] == 'arc' and out and out[-1][0] == 'p' and near(out[-1][1], start_of(e)):
            out.pop()
        if e[0] == 'arc' and e[4] == 0:
            out.append(('p', start_of(e)))
            continue
        out.append(e)
    if closed:
        while len(out) > 1 and out[-1][0] == 'p' and near(out[-1][1], start_of(out[0])):
            out.pop()
        if len(out) > 1 and out[0][0] == 'p' and near(end_of(out[-1]), out[0][1]):
            out.pop(0)
    return out


def fill_shapes(path):
    out = []
    for els, _ in subpaths(path):
        if any(e[0] == 'arc?' for e in els):
            out.append(('?', tuple(els)))
            continue
        els = tidy(els, True)
        if len(els) == 1 and els[0][0] == 'arc' and els[0][4] > 6.28318:
            out.append(('disk', els[0][1], els[0][2]))
        elif len(els) > 1 or els and els[0][0] == 'arc':
            out.append(('area', tuple(els)))
    return out


def stroke_shapes(path, width, cap):
    out = []
    for els, closed in subpaths(path):
        if any(e[0] == 'arc?' for e in els):
            out.append(('?', tuple(els)))
            continue
        zero = len(els) > 1
        t = tidy(els, closed)
        if len(t) == 1 and t[0][0] == 'p':
            if zero and cap == 'round':
                out.append(('disk', t[0][1], P(width) * .5))
            elif zero and cap == 'square':
                out.append(('dot', t[0][1], width, cap))
            continue
        if len(t) == 1 and t[0][4] > 6.28318:
            cap = 'round'
        out.append(('stroke', tuple(t), width, cap, closed))
    return out


def rev(e):
    if e[0] == 'p':
        return e
    return ('arc', e[1], e[2], turn(e[3] + e[5] * e[4]), e[4], -e[5])


def same_el(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'p':
        return eq(a[1], b[1])
    if not (eq(a[1], b[1]) and eq(a[2], b[2]) and abs(a[4] - b[4]) < 1e-5):
        return False
    if a[4] > 6.28318:
        return True
    d = abs(a[3] - b[3]) % (2 * math.pi)
    return a[5] == b[5] and min(d, 2 * math.pi - d) < 1e-5


def same_seq(a, b):
    return len(a) == len(b) and all(same_el(x, y) for x, y in zip(a, b))


def same_shape(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'disk':
        return eq(a[1], b[1]) and eq(a[2], b[2])
    if a[0] == 'area':
        x, y = list(a[1]), list(b[1])
        if len(x) != len(y):
            return False
        for way in (y, [rev(e) for e in reversed(y)]):
            for k in range(len(way)):
                if same_el(x[0], way[k]) and same_seq(x, way[k:] + way[:k]):
                    return True
        return False
    if a[0] == 'stroke':
        if not eq(a[2], b[2]) or a[3] != b[3] or a[4] != b[4]:
            return False
        return same_seq(a[1], b[1]) or same_seq(a[1], [rev(e) for e in reversed(b[1])])
    if a[0] == 'group':
        return same_mask(a[1], b[1])
    return False


def same_set(a, b):
    b = list(b)
    if len(a) != len(b):
        return False
    for x in a:
        for i, y in enumerate(b):
            if same_shape(x, y):
                del b[i]
                break
        else:
            return False
    return True


def groups(ops):
    """Runs of operations with one operator are unions: order does not matter."""
    out = []
    for op, sh in ops:
        if out and out[-1][0] == op:
            out[-1][1].append(sh)
        else:
            out.append((op, [sh]))
    return out


def same_mask(a, b):
    a, b = groups(a), groups(b)
    return len(a) == len(b) and all(x[0] == y[0] and same_set(x[1], y[1]) for x, y in zip(a, b))


def moved(sh_path, lin, at):
    """Path with an affine map applied (mask to layer coordinates)."""
    xx, yx, xy, yy = lin

    def pt(p):
        return (P(p[0]) * xx + P(p[1]) * xy + at[0], P(p[0]) * yx + P(p[1]) * yy + at[1])
    out = []
    for e in sh_path:
        if e[0] in 'ML':
            out.append((e[0], pt(e[1])))
        elif e[0] == 'A':
            _, c, r, a1, a2, way, l = e
            out.append(('A', pt(c), r, a1, a2, way, (l[0] * xx + l[1] * xy, l[0] * yx + l[1] * yy, l[2] * xx + l[3] * xy, l[2] * yx + l[3] * yy)))
        else:
            out.append(e)
    return tuple(out)


def ops_of(L, surface):
    return [tuple(x) for x in L.items(L.get(surface, 'ops'))]


def mask_ops(L, surface, lin, at, clipped=None):
    """[(operator, shape)] of a mask in the coordinates of the layer.  Masks
    drawn on the mask become groups; their clips are added to clipped."""
    out = []
    for op, source, clips, kind, *rest in ops_of(L, surface):
        if source[0] != 'rgba' or source[4] != 1.0:
            return None, 'the mask is not painted fully'
        if op not in ('over', 'clear', 'source'):
            return None, 'the mask is painted with operator %s' % op
        op = op.replace('source', 'over')
        if clips and (kind != 'mask' or clipped is None):
            return None, 'the mask itself is clipped'
        if kind == 'fill':
            out += [(op, s) for s in fill_shapes(moved(rest[0], lin, at))]
        elif kind == 'stroke':
            path, width, cap, l = rest
            out += [(op, s) for s in stroke_shapes(moved(path, lin, at), width, cap)]
        elif kind == 'paint':
            out.append((op, ('all',)))
        elif kind == 'mask':
            a, b = rest[1], rest[2]
            l2 = (a[0] * lin[0] + a[1] * lin[2], a[0] * lin[1] + a[1] * lin[3], a[2] * lin[0] + a[3] * lin[2], a[2] * lin[1] + a[3] * lin[3])
            a2 = (P(b[0]) * lin[0] + P(b[1]) * lin[2] + at[0], P(b[0]) * lin[1] + P(b[1]) * lin[3] + at[1])
            m, why = mask_ops(L, rest[0], l2, a2, clipped)
            if m is None:
                return None, why
            if clipped is not None:
                for c in clips:
                    clipped.append((moved(c, lin, at), m))
            out += grouped(op, m)
        else:
            return None, 'the mask is painted by %s' % kind
    return out, None


def grouped(op, m):
    """Operations equal to painting a mask with an operator."""
    if all(o == 'over' for o, _ in m):
        return [(op, s) for _, s in m]
    return [(op, ('group', tuple(m)))]


def layer_ops(L, surface, clipped=None):
    """[(operator, source, clips, what)] painted on a surface; what is
    ('mask', [(operator, shape)]), ('paint',), ('text', ...) or ('bad', why)."""
    out = []
    for op, source, clips, kind, *rest in ops_of(L, surface):
        if kind == 'mask':
            m, why = mask_ops(L, rest[0], rest[1], rest[2], clipped)
            out.append((op, source, clips, ('bad', why) if m is None else ('mask', m, rest[0])))
        elif kind == 'paint':
            out.append((op, source, clips, ('paint', rest[0])))
        elif kind == 'fill':
            out.append((op, source, clips, ('mask', [('over', s) for s in fill_shapes(rest[0])], None)))
        elif kind == 'stroke':
            out.append((op, source, clips, ('mask', [('over', s) for s in stroke_shapes(rest[0], rest[1], rest[2])], None)))
        else:
            out.append((op, source, clips, (kind,) + tuple(rest)))
    return out


# ------------------------------------------------------------------ clipping
def nonneg(v, depth=10):
    """Is the polynomial proved not negative?  Rounding is replaced by bounds, minima and maxima by cases."""
    v = P(v)
    v = Poly(dict((m, c) for m, c in v.terms.items() if abs(c) > 1e-7))
    if poly_sign(v) in ('+', '0', '0+'):
        return True
    if depth == 0:
        return False
    for m, c in sorted(v.terms.items(), key=lambda mc: any(ATOMS[k[0]].fn in ('floor', 'ceil') for k in mc[0])):
        hit = [k for k in m if k[1] == 1 and ATOMS[k[0]].fn in ('floor', 'ceil', 'abs', 'max', 'min')]
        if not hit:
            continue
        at = ATOMS[hit[0][0]]
        others = tuple(k for k in m if k is not hit[0])
        rest = P(v - Poly({m: c}))
        if others:      # times a positive quantity
            q = Poly({others: 1.0})
            if poly_sign(q) not in ('+', '0+') or at.fn in ('floor', 'ceil'):
                continue
        x = P(at.args[0])
        if others:
            args = [x, P(x * -1)] if at.fn == 'abs' else [P(a) for a in at.args]
            pick = any if (at.fn == 'min') == (c < 0) else all
            return pick(nonneg(rest + a * q * c, depth - 1) for a in args)
        if at.fn == 'floor':
            return nonneg(rest + (x - 1 if c > 0 else x) * c, depth - 1)
        if at.fn == 'ceil':
            return nonneg(rest + (x if c > 0 else x + 1) * c, depth - 1)
        args = [x, P(x * -1)] if at.fn == 'abs' else [P(a) for a in at.args]
        pick = any if (at.fn == 'min') == (c < 0) else all
        return pick(nonneg(rest + a * c, depth - 1) for a in args)
    return False


def at_least(a, b):
    """a >= b: True proved, False refuted at a sampled point, None unknown."""
    d = P(P(a) - P(b))
    d = Poly(dict((m, c) for m, c in d.terms.items() if abs(c) > 1e-7))
    if nonneg(d):
        return True
    for t in range(24):
        try:
            if numeval(d, t) < -1e-6 * max(1.0, abs(numeval(P(b), t))):
                return False
        except NoEval:
            pass
    return None


def covers(clip, xs, ys):
    """Does the rectangular clip path contain all points with the given
    coordinates?"""
    clip = [e for e, f in zip(clip, clip[1:] + (('Z',),)) if not (e[0] == 'M' and f[0] == 'M')]
    pts = [e[1] for e in clip if e[0] in 'ML']
    if any(e[0] in 'AN' for e in clip) or len(pts) < 4:
        return None
    if not (eq(pts[0][1], pts[1][1]) and eq(pts[1][0], pts[2][0]) and eq(pts[2][1], pts[3][1]) and eq(pts[3][0], pts[0][0])):
        return None
    out = True
    for vs, a, b in ((xs, pts[0][0], pts[1][0]), (ys, pts[0][1], pts[2][1])):
        rs = []
        for lo, hi in ((a, b), (b, a)):
            r = [at_least(v, lo) for v in vs] if not any(at_least(v, lo) is False for v in vs[:1]) else [False]
            if False not in r:
                r += [at_least(hi, v) for v in vs]
            rs.append(False if False in r else None if None in r else True)
            if True in rs:
                break
        if True not in rs:
            if rs == [False, False]:
                return False
            out = None
    return out


def extremes(vs):
    """The values that are not known to lie between others."""
    keep = []
    for i, v in enumerate(vs):
        if any(eq(v, w) for w in keep):
            continue
        below = any(poly_sign(P(P(w) - P(v))) in ('+', '0+') for j, w in enumerate(vs) if j != i)
        above = any(poly_sign(P(P(v) - P(w))) in ('+', '0+') for j, w in enumerate(vs) if j != i)
        if not (below and above):
            keep.append(v)
    return keep


# ------------------------------------------------------------------ membership
def num(v, t):
    return numeval(v, t) if isinstance(v, Poly) else float(v)


def flat(els, t):
    pts = []
    for e in els:
        if e[0] == 'p':
            pts.append((num(e[1][0], t), num(e[1][1], t)))
        elif e[0] == 'arc':
            cx, cy, r = num(e[1][0], t), num(e[1][1], t), num(e[2], t)
            n = 360
            for i in range(n + 1):
                a = e[3] + e[5] * e[4] * i / n
                pts.append((cx + r * math.cos(a), cy + r * math.sin(a)))
        else:
            raise NoEval()
    return pts


def seg_dist(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    n = dx * dx + dy * dy
    k = 0 if n == 0 else max(0, min(1, ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / n))
    return math.hypot(p[0] - a[0] - k * dx, p[1] - a[1] - k * dy)


def signed(shape, t):
    """p -> signed distance-like number: negative inside."""
    if shape[0] == 'all':
        return lambda p: -1.0
    if shape[0] == 'disk':
        cx, cy, r = num(shape[1][0], t), num(shape[1][1], t), num(shape[2], t)
        return lambda p: math.hypot(p[0] - cx, p[1] - cy) - r
    if shape[0] == 'group':
        fs = [(op, signed(x, t)) for op, x in shape[1]]

        def f(p):
            d = 1e9
            for op, h in fs:
                d = min(d, h(p)) if op == 'over' else max(d, -h(p))
            return d
        return f
    if shape[0] == 'area':
        pts = flat(shape[1], t)
        edges = list(zip(pts, pts[1:] + pts[:1]))

        def f(p):
            w = 0
            d = 1e9
            for a, b in edges:
                d = min(d, seg_dist(p, a, b))
                if (a[1] <= p[1]) != (b[1] <= p[1]):
                    x = a[0] + (p[1] - a[1]) * (b[0] - a[0]) / (b[1] - a[1])
                    if x > p[0]:
                        w += 1 if b[1] > a[1] else -1
            return -d if w else d
        return f
    if shape[0] == 'stroke' and (shape[3] == 'round'):
        pts = flat(shape[1], t)
        if shape[4]:
            pts.append(pts[0])
        h = num(shape[2], t) / 2
        return lambda p: min(seg_dist(p, a, b) for a, b in zip(pts, pts[1:])) - h
    raise NoEval()


def member(mask, t):
    fs = [(op, signed(s, t)) for op, s in mask]

    def f(p, tol):
        on = False
        for op, g in fs:
            d = g(p)
            if abs(d) < tol:
                return None
            if d < 0:
                on = op == 'over'
        return on
    return f


def span(mask, t):
    xs, ys = [], []
    for _, s in mask:
        if s[0] == 'group':
            b = span(s[1], t)
            xs += b[:2]
            ys += b[2:]
            continue
        if s[0] == 'disk':
            pts, r = [(num(s[1][0], t), num(s[1][1], t))], num(s[2], t)
        elif s[0] in ('area', 'stroke'):
            pts, r = flat(s[1], t), num(s[2], t) if s[0] == 'stroke' else 0
        else:
            continue
        xs += [p[0] + k * r for p in pts for k in (-1, 1)]
        ys += [p[1] + k * r for p in pts for k in (-1, 1)]
    return min(xs), max(xs), min(ys), max(ys)


def same_area(a, b, n=21):
    """Do two masks cover the same points?  Decided at sampled values of the
    symbols; None if some shape has no membership test."""
    try:
        for t in range(4):
            f, g = member(a, t), member(b, t)
            if not a or not b:
                return not a and not b
            bx = span(a + b, t)
            tol = 1e-3 * max(bx[1] - bx[0], bx[3] - bx[2])
            for i in range(n):
                for j in range(n):
                    p = (bx[0] + (bx[1] - bx[0]) * (i + .37) / n, bx[2] + (bx[3] - bx[2]) * (j + .41) / n)
                    x, y = f(p, tol), g(p, tol)
                    if x is not None and y is not None and x != y:
                        return False
        return True
    except NoEval:
        return None


def compare_masks(got, want):
    """True, False or None."""
    if same_mask(got, want):
        return True
    return same_area(got, want)
