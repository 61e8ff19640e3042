"""Specification tables of the aperture macro primitives."""
from sa.lab import *
from .prims import N, scaled

A = 'gerber.am_statements:'
P = 'gerber.primitives:'


def pt(t):
    return (N(t + 'x'), N(t + 'y'))


def table():
    """(class, code(s), has exposure, constructor fields in order, modifier order of the file format).
    Field kinds: L length, P point, K number kept as is, n integer kept, PTS point list."""
    return [
        ('AMCirclePrimitive', (1,), True, [('diameter', 'L'), ('position', 'P')], ['diameter', 'position']),
        ('AMVectorLinePrimitive', (2, 20), True, [('width', 'L'), ('start', 'P'), ('end', 'P'), ('rotation', 'K')], ['width', 'start', 'end', 'rotation']),
        ('AMOutlinePrimitive', (4,), True, [('start_point', 'P'), ('points', 'PTS'), ('rotation', 'K')], ['#', 'start_point', 'points', 'rotation']),
        ('AMPolygonPrimitive', (5,), True, [('vertices', 'n'), ('position', 'P'), ('diameter', 'L'), ('rotation', 'K')], ['vertices', 'position', 'diameter', 'rotation']),
        ('AMMoirePrimitive', (6,), False, [('position', 'P'), ('diameter', 'L'), ('ring_thickness', 'L'), ('gap', 'L'), ('max_rings', 'n'),
                                           ('crosshair_thickness', 'L'), ('crosshair_length', 'L'), ('rotation', 'K')],
         ['position', 'diameter', 'ring_thickness', 'gap', 'max_rings', 'crosshair_thickness', 'crosshair_length', 'rotation']),
        ('AMThermalPrimitive', (7,), False, [('position', 'P'), ('outer_diameter', 'L'), ('inner_diameter', 'L'), ('gap', 'L'), ('rotation', 'K')],
         ['position', 'outer_diameter', 'inner_diameter', 'gap', 'rotation']),
        ('AMCenterLinePrimitive', (21,), True, [('width', 'L'), ('height', 'L'), ('center', 'P'), ('rotation', 'K')], ['width', 'height', 'center', 'rotation']),
        ('AMLowerLeftLinePrimitive', (22,), True, [('width', 'L'), ('height', 'L'), ('lower_left', 'P'), ('rotation', 'K')],
         ['width', 'height', 'lower_left', 'rotation']),
    ]


INTS = {'vertices': 6, 'max_rings': 3}


def values(fields, npts=3):
    out = {}
    for a, k in fields:
        if k == 'P':
            out[a] = pt(a + '_')
        elif k == 'n':
            out[a] = INTS[a]
        elif k == 'PTS':
            out[a] = [pt('p%d_' % i) for i in range(npts - 1)] + [pt('start_point_')]
        else:
            out[a] = N(a, '+' if k == 'L' else None)
    return out


def build(L, cls, code, exposure, fields, vals, has_exp):
    args = [code] + ([exposure] if has_exp else [])
    for a, k in fields:
        args.append(L.list(list(vals[a])) if k == 'PTS' else vals[a])
    return L.new(A + cls, *args)


def readback(L, o, fields):
    out = {}
    for a, k in fields:
        v = L.get(o, a)
        if k == 'PTS':
            v = tuple(L.items(v))
        out[a] = v
    return out


def scale(vals, fields, f):
    out = {}
    for a, k in fields:
        v = tuple(vals[a]) if k == 'PTS' else vals[a]
        out[a] = scaled(v, f) if k in ('L', 'P', 'PTS') else v
    return out
