"""Specification table of the drawing primitives (what each public attribute
means).  Kinds: L length, P absolute point (pair of lengths), K unchanged by
conversion and translation, A aperture (nested primitive), S sub-primitives."""
from sa.lab import *

P = 'gerber.primitives:'


def N(label, sign=None):
    return sym(label, sign)


def circle(L, units, tag='ap'):
    return L.new(P + 'Circle', (0.0, 0.0), N(tag + '.d', '+'), units=units)


def rect(L, units, tag='ap'):
    return L.new(P + 'Rectangle', (0.0, 0.0), N(tag + '.w', '+'), N(tag + '.h', '+'), units=units)


def pt(tag):
    return (N(tag + 'x'), N(tag + 'y'))


class Spec(object):
    def __init__(self, cls, build, attrs, variant=''):
        self.cls = cls
        self.build = build
        self.attrs = attrs
        self.name = cls + (('/' + variant) if variant else '')


def simple(cls, args, attrs, variant='', **kw):
    def build(L, units):
        k = dict(kw)
        k['units'] = units
        return L.new(P + cls, *[a() if callable(a) else a for a in args], **k)
    return Spec(cls, build, attrs, variant)


def _lines(L, units, pts, ap):
    out = []
    for a, b in zip(pts, pts[1:]):
        out.append(L.new(P + 'Line', a, b, ap, units=units))
    return L.list(out)


def _outline(n):
    def build(L, units):
        pts = [pt('o%d' % i) for i in range(n)]
        ap = circle(L, units)
        if n == 1:
            lst = L.list([L.new(P + 'Line', pts[0], pts[0], ap, units=units)])
        else:
            lst = _lines(L, units, pts + [pts[0]], ap)
        return L.new(P + 'Outline', lst, units=units)
    return build


def _region(n, arc=False):
    def build(L, units):
        pts = [pt('r%d' % i) for i in range(n + 1)]
        ap = circle(L, units)
        lst = _lines(L, units, pts, ap)
        items = L.items(lst)
        if arc:
            items.append(L.new(P + 'Arc', pts[-1], pts[0], pt('rc'), 'clockwise', ap, 'single-quadrant', units=units))
        return L.new(P + 'Region', L.list(items), units=units)
    return build


def _line(ap):
    def build(L, units):
        return L.new(P + 'Line', pt('s'), pt('e'), ap(L, units) if ap else None, level_polarity='clear', units=units)
    return build


def _arc(d, q):
    def build(L, units):
        return L.new(P + 'Arc', pt('s'), pt('e'), pt('c'), d, circle(L, units), q, units=units)
    return build


def on_circle(deg, k=1.0):
    """Point at the given compass direction on the labelled circle."""
    import math
    r = N('R', '+')
    c, s_ = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    c, s_ = (0.0 if abs(c) < 1e-12 else c), (0.0 if abs(s_) < 1e-12 else s_)
    return (N('cx') + r * (k * c), N('cy') + r * (k * s_))


def dir_arc(d, q, a0, a1, ap=circle):
    def build(L, units):
        return L.new(P + 'Arc', on_circle(a0), on_circle(a1), (N('cx'), N('cy')), d, ap(L, units), q, units=units)
    return build


ARC_ATTRS = {'start': 'P', 'end': 'P', 'center': 'P', 'radius': 'L', 'aperture': 'A', 'direction': 'K', 'quadrant_mode': 'K'}


# aperture-macro group built from primitives that know how to become shapes
def _amgroup(kinds):
    def build(L, units):
        A = 'gerber.am_statements:'
        prims = []
        for k in kinds:
            if k == 'circle':
                prims.append(L.new(A + 'AMCirclePrimitive', 1, 'on', N('amc.d', '+'), pt('amc')))
            elif k == 'vector':
                prims.append(L.new(A + 'AMVectorLinePrimitive', 2, 'on', N('amv.w', '+'), pt('amv.s'), pt('amv.e'), 0))
            elif k == 'poly':
                prims.append(L.new(A + 'AMPolygonPrimitive', 5, 'on', 6, pt('amp'), N('amp.d', '+'), N('amp.r')))
            elif k == 'outline':
                a, b, c = pt('amo0'), pt('amo1'), pt('amo2')
                prims.append(L.new(A + 'AMOutlinePrimitive', 4, 'on', a, L.list([b, c, a]), N('amo.r')))
            elif k == 'center':
                prims.append(L.new(A + 'AMCenterLinePrimitive', 21, 'on', N('aml.w', '+'), N('aml.h', '+'), pt('aml'), N('aml.r')))
        g = L.new(P + 'AMGroup', L.list(prims), units=units)
        L.set(g, 'position', pt('g'))
        return g
    return build


HOLES = {'hole_diameter': 'L', 'hole_width': 'L', 'hole_height': 'L'}


def hk():
    return dict(hole_diameter=N('hd', '+'), hole_width=N('hw', '+'), hole_height=N('hh', '+'))


def specs(rotation=0):
    r = rotation
    pos = lambda: pt('p')
    w, h, d = (lambda: N('w', '+')), (lambda: N('h', '+')), (lambda: N('d', '+'))
    out = [
        Spec('Line', _line(circle), {'start': 'P', 'end': 'P', 'aperture': 'A', 'level_polarity': 'K'}, 'round'),
        Spec('Line', _line(rect), {'start': 'P', 'end': 'P', 'aperture': 'A', 'level_polarity': 'K'}, 'rect'),
        Spec('Line', _line(None), {'start': 'P', 'end': 'P'}, 'no-aperture'),
        simple('Circle', [pos, d], {'position': 'P', 'diameter': 'L', 'radius': 'L', 'hole_diameter': 'L', 'hole_width': 'L',
                                    'hole_height': 'L', 'hole_radius': 'L', 'level_polarity': 'K', 'rotation': 'K'}, 'hole', rotation=r, **hk()),
        simple('Circle', [pos, d], {'position': 'P', 'diameter': 'L', 'hole_diameter': 'L'}, 'plain', rotation=r),
        simple('Ellipse', [pos, w, h], {'position': 'P', 'width': 'L', 'height': 'L', 'rotation': 'K'}, rotation=r),
        simple('Rectangle', [pos, w, h], dict(HOLES, position='P', width='L', height='L', hole_radius='L', rotation='K'), 'hole', rotation=r, **hk()),
        simple('Rectangle', [pos, w, h], {'position': 'P', 'width': 'L', 'height': 'L', 'hole_diameter': 'L'}, 'plain', rotation=r),
        simple('Diamond', [pos, w, h], {'position': 'P', 'width': 'L', 'height': 'L', 'rotation': 'K'}, rotation=r),
        simple('ChamferRectangle', [pos, w, h, lambda: N('ch', '+'), (True, False, True, False)],
               {'position': 'P', 'width': 'L', 'height': 'L', 'chamfer': 'L', 'corners': 'K', 'rotation': 'K'}, rotation=r),
        simple('RoundRectangle', [pos, w, h, lambda: N('rr', '+'), (True, False, True, False)],
               {'position': 'P', 'width': 'L', 'height': 'L', 'radius': 'L', 'corners': 'K', 'rotation': 'K'}, rotation=r),
        simple('Obround', [pos, w, h], dict(HOLES, position='P', width='L', height='L', hole_radius='L', rotation='K'), 'hole', rotation=r, **hk()),
        simple('Polygon', [pos, 5, lambda: N('pr', '+')], dict(HOLES, position='P', radius='L', diameter='L', sides='K', hole_radius='L', rotation='K'),
               'hole', rotation=r, **hk()),
        simple('RoundButterfly', [pos, d], {'position': 'P', 'diameter': 'L', 'radius': 'L'}, rotation=r),
        simple('SquareButterfly', [pos, d], {'position': 'P', 'side': 'L'}, rotation=r),
        simple('SquareRoundDonut', [pos, lambda: N('id', '+'), lambda: N('id', '+') + N('od', '+')],
               {'position': 'P', 'inner_diameter': 'L', 'outer_diameter': 'L'}, rotation=r),
        simple('Drill', [pos, d], {'position': 'P', 'diameter': 'L', 'radius': 'L'}),
        simple('Slot', [lambda: pt('s'), lambda: pt('e'), d], {'start': 'P', 'end': 'P', 'diameter': 'L'}),
        simple('TestRecord', [pos, 'NET1', 'top'], {'position': 'P', 'net_name': 'K', 'layer': 'K'}),
    ]
    for shape in ('round', 'square', 'hexagon', 'octagon'):
        out.append(simple('Donut', [pos, shape, lambda: N('id', '+'), lambda: N('id', '+') + N('od', '+')],
                          {'position': 'P', 'inner_diameter': 'L', 'outer_diameter': 'L', 'width': 'L', 'height': 'L', 'shape': 'K'}, shape, rotation=r))
    for dr in ('clockwise', 'counterclockwise'):
        for q in ('single-quadrant', 'multi-quadrant'):
            out.append(Spec('Arc', _arc(dr, q), {'start': 'P', 'end': 'P', 'center': 'P', 'radius': 'L', 'aperture': 'A', 'direction': 'K',
                                                 'quadrant_mode': 'K'}, dr + '-' + q))
    for n in (1, 2, 3):
        out.append(Spec('Outline', _outline(n), {'primitives': 'S'}, '%d' % n))
        out.append(Spec('Region', _region(n), {'primitives': 'S'}, '%d' % n))
    out.append(Spec('Region', _region(2, True), {'primitives': 'S'}, 'arc'))
    out.append(Spec('AMGroup', _amgroup(['circle']), {'position': 'P', 'primitives': 'S'}, 'circle'))
    out.append(Spec('AMGroup', _amgroup(['circle', 'vector', 'poly', 'outline', 'center']), {'position': 'P', 'primitives': 'S'}, 'mixed'))
    return out


# what each class publishes, for nested primitives
NESTED = {
    'Line': {'start': 'P', 'end': 'P', 'aperture': 'A'},
    'Arc': {'start': 'P', 'end': 'P', 'center': 'P', 'aperture': 'A', 'direction': 'K', 'quadrant_mode': 'K'},
    'Circle': {'position': 'P', 'diameter': 'L', 'hole_diameter': 'L', 'hole_width': 'L', 'hole_height': 'L'},
    'Rectangle': {'position': 'P', 'width': 'L', 'height': 'L', 'hole_diameter': 'L', 'rotation': 'K'},
    'Polygon': {'position': 'P', 'radius': 'L', 'sides': 'K', 'hole_diameter': 'L', 'rotation': 'K'},
    'Outline': {'primitives': 'S'},
    'AMGroup': {'position': 'P', 'primitives': 'S'},
    'Obround': {'position': 'P', 'width': 'L', 'height': 'L', 'hole_diameter': 'L', 'rotation': 'K'},
    'Donut': {'position': 'P', 'inner_diameter': 'L', 'outer_diameter': 'L'},
    'Region': {'primitives': 'S'},
    'Drill': {'position': 'P', 'diameter': 'L'},
    'Slot': {'start': 'P', 'end': 'P', 'diameter': 'L'},
    'Diamond': {'position': 'P', 'width': 'L', 'height': 'L'},
    'Ellipse': {'position': 'P', 'width': 'L', 'height': 'L'},
}


def read(L, o, attrs, out=None, path=''):
    """Observable state: {path: (kind, value)}, nested shapes expanded."""
    if out is None:
        out = {}
    for a, k in attrs.items():
        v = L.get(o, a)
        if isinstance(v, Ref) and k == 'A':
            read(L, v, NESTED.get(L.cls_of(v), {}), out, path + a + '.')
            out[path + a + '.units'] = ('U', L.get(v, 'units'))
        elif k == 'S':
            its = L.items(v)
            out[path + a + '#'] = ('K', len(its))
            for i, p in enumerate(its):
                q = '%s%s[%d].' % (path, a, i)
                read(L, p, NESTED.get(L.cls_of(p), {}), out, q)
                out[q + 'units'] = ('U', L.get(p, 'units'))
        else:
            out[path + a] = (k, v)
    return out


def scaled(v, f):
    if v is None:
        return None
    if isinstance(v, tuple):
        return tuple(scaled(x, f) for x in v)
    if isinstance(v, Choice):
        return choice([scaled(x, f) for x in v.vals])
    if isinstance(v, (Top, BTerm)):
        return v
    return v * f
