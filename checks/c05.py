"""C05 translation of drawing primitives."""
from sa.lab import *
from .prims import specs, read

RULE = ('Abstract interpretation of offset(x, y) of every primitive class on objects with labelled coordinates: each published absolute '
        'coordinate must become exactly (px + dx, py + dy), every size, angle, mode and nested aperture must be unchanged, whether the '
        'offsets are passed by position, by keyword, or left out; translating twice must add up, and the bounding box must be the '
        'original one translated.')
ASSUMPTIONS = ['primitive lists of length 1, 2, 3 stand for all lengths']


def moved(k, v, dx, dy):
    if k == 'P' and isinstance(v, tuple):
        return (v[0] + dx, v[1] + dy)
    return v


def run(O, thorough):
    L = Lab(['gerber.primitives', 'gerber.am_statements'])
    dx, dy, ex, ey = sym('dx'), sym('dy'), sym('ex'), sym('ey')
    rots = [0] if not thorough else [0, 90, sym('rot')]
    for rot in rots:
        for s in specs(rot):
            if rot != 0 and 'rotation' not in s.attrs:
                continue
            tag = s.name + ('' if rot == 0 else '@rot=%s' % show(rot))
            where = L.where('gerber.primitives:' + s.cls, 'offset')
            for mode, args, kw, (ox, oy) in (('positional', (dx, dy), {}, (dx, dy)), ('keyword', (), {'x_offset': dx, 'y_offset': dy}, (dx, dy)),
                                             ('x only', (), {'x_offset': dx}, (dx, 0)), ('y only', (), {'y_offset': dy}, (0, dy)),
                                             ('twice', (dx, dy), {}, (dx + ex, dy + ey))):
                L.fresh()
                box = {}

                def go():
                    o = s.build(L, 'inch')
                    box['b'] = read(L, o, s.attrs)
                    L.call(o, 'offset', *args, **kw)
                    if mode == 'twice':
                        L.call(o, 'offset', ex, ey)
                    box['a'] = read(L, o, s.attrs)
                key = '%s:%s' % (tag, mode)
                oc = L.run(go)
                O.note(L)
                if not O.outcome(key, oc, where, '%s.offset()' % s.cls):
                    continue
                for k, (kind, v) in box['b'].items():
                    nested = '.aperture.' in k or k.startswith('aperture.')
                    want = v if nested else moved(kind, v, ox, oy)
                    O.equal('%s:%s' % (key, k), box['a'].get(k, (0, MISSING))[1], want, where, '%s.%s after offset(%s)' % (s.cls, k, mode))
