"""C18 a picture rendered back into Gerber text draws the same picture."""
import re

from sa.lab import *
from sa.par import parallel
from .strs import *
from .c09 import bruijn, hash_
from . import c11

RULE = ('Abstract interpretation of rendering sequences of primitives to Gerber text (Rs274xContext) and of the Gerber reader on the text it dumps: every pair '
        '(thorough: triple) of consecutive primitives from an alphabet of lines, arcs, flashes of all standard apertures, macro flashes, regions and outlines in both '
        'polarities, sharing or not sharing a point with their neighbour, in several formats and units, must be read back as the same primitives in the same '
        'order; also primitives taken from a Gerber file that was read. The text is scanned for aperture definitions, their numbers and their use.')
ASSUMPTIONS = ['writing and reading of coordinate numbers is C14: write_gerber_value and parse_gerber_value are an uninterpreted writer and its inverse here',
               'the primitives are in the units of the settings; the text is read by the reader that C09 covers']
P = 'gerber.primitives:'
A = 'gerber.am_statements:'
HOLES = (('', {}), (' round', dict(hole_diameter=0.0625)), (' rect', dict(hole_width=0.03125, hole_height=0.0625)))
HOLE = ('hole_diameter', 'hole_width', 'hole_height')


def polygon(L, **kw):
    return L.new(P + 'Polygon', **kw)


def alphabet(short=False):
    """[(name, build(L, pts, units) -> primitive)]: pts is a list of points;
    a primitive that uses pts[0] first starts where the one before ended.
    Points are distinct numbers: the renderer may only compare and subtract them."""
    out = []

    def add(name, fn):
        out.append((name, fn))

    def circle(L, u, d=0.25, **kw):
        return L.new(P + 'Circle', None, d, units=u, **kw)

    def rect(L, u, w=0.25, h=0.5, **kw):
        return L.new(P + 'Rectangle', None, w, h, units=u, **kw)

    def obround(L, u, w=0.25, h=0.5, **kw):
        return L.new(P + 'Obround', None, w, h, units=u, **kw)

    def line(name, ap, a, b, pol):
        add('%s %s' % (name, pol), lambda L, p, u: L.new(P + 'Line', p[a], p[b], ap(L, u), **lp(pol, units=u)))

    def arc(name, ap, a, b, way, quad, pol):
        def build(L, p, u):
            kw = lp(pol, units=u)
            return L.new(P + 'Arc', p[a], p[b], p[6], way, ap(L, u), quad, **kw)
        add('%s %s %s %s' % (name, way, quad, pol), build)

    def lp(pol, **kw):
        if pol is not None:
            kw['level_polarity'] = pol
        return kw
    line('on', circle, 0, 1, 'dark')
    line('apart', circle, 2, 3, 'dark')
    line('apart', circle, 2, 3, 'clear')
    line('unset', circle, 2, 1, None)
    line('thin', lambda L, u: circle(L, u, 0.125), 0, 1, 'dark')
    line('annular', lambda L, u: circle(L, u, hole_diameter=0.125), 0, 1, 'dark')
    line('holed', lambda L, u: circle(L, u, hole_width=0.125, hole_height=0.0625), 2, 3, 'dark')
    line('rect', rect, 0, 3, 'dark')
    line('obround', obround, 2, 1, 'clear')
    line('oblong', lambda L, u: rect(L, u, 0.5, 0.25), 0, 3, 'dark')
    line('level', circle, 0, 4, 'dark')     # keeps y
    line('upright', circle, 0, 5, 'dark')     # keeps x
    line('return', circle, 7, 1, 'dark')     # to where the one before started
    line('near', circle, 8, 0, 'dark')
    line('to the start of the region', circle, 10, 1, 'dark')
    line('back', circle, 9, 7, 'dark')
    def direct(name, cls, a, b):
        def start(p):
            return a(p) if a(p) != b(p) else (p[2][0] + 0.75, p[2][1] + 0.75)
        add(name, lambda L, p, u: L.new(P + cls, start(p), b(p), *([p[6], 'clockwise', circle(L, u), 'multi-quadrant'] if cls == 'Arc' else [circle(L, u)]), level_polarity='dark', units=u))
    for cls in ('Line', 'Arc'):
        direct(cls + ' to x 0', cls, lambda p: p[2], lambda p: (0.0, p[2][1]))
        direct(cls + ' to y 0', cls, lambda p: p[2], lambda p: (p[2][0], 0.0))
        direct(cls + ' on to x 0', cls, lambda p: p[0], lambda p: (0.0, p[0][1]))
        direct(cls + ' to the origin', cls, lambda p: p[2], lambda p: (0.0, 0.0))
        direct(cls + ' from the origin', cls, lambda p: (0.0, 0.0), lambda p: p[1])
        direct(cls + ' from x 0', cls, lambda p: (0.0, p[0][1]), lambda p: p[1])
    for name, at in (('x 0', lambda p: (0.0, p[0][1])), ('y 0', lambda p: (p[0][0], 0.0)), ('the origin', lambda p: (0.0, 0.0))):
        add('flash at ' + name, lambda L, p, u, at=at: L.new(P + 'Rectangle', at(p), 0.25, 0.5, level_polarity='dark', units=u))
    line('hollow rect', lambda L, u: rect(L, u, hole_diameter=0.0625), 0, 1, 'dark')
    line('hollow obround', lambda L, u: obround(L, u, hole_width=0.03125, hole_height=0.0625), 0, 1, 'dark')
    line('hexagon', lambda L, u: L.new(P + 'Polygon', None, 6, 0.25, units=u, rotation=15.5), 2, 3, 'dark')
    line('macro', lambda L, u: macro(L, MACROS[1][1], None, None, u, True), 0, 3, 'dark')
    line('other macro', lambda L, u: macro(L, MACROS[4][1], None, None, u, True), 0, 3, 'clear')
    arc('arc', circle, 0, 1, 'clockwise', 'multi-quadrant', 'dark')
    arc('arc', circle, 2, 3, 'counterclockwise', 'multi-quadrant', 'clear')
    arc('arc', rect, 2, 1, 'clockwise', 'multi-quadrant', 'dark')
    def quarter(way, turn, sweep, pol):
        def build(L, p, u):
            (cx, cy), r = (p[0][0] - QUARTER[turn][0], p[0][1] - QUARTER[turn][1]), 1.25
            end = QUARTER[(turn + (sweep if way == 'counterclockwise' else -sweep)) % len(QUARTER)]
            return L.new(P + 'Arc', p[0], (cx + end[0], cy + end[1]), (cx, cy), way, circle(L, u), 'single-quadrant', **lp(pol, units=u))
        add('quarter %s %d+%d' % (way, turn, sweep), build)
    arc('near', circle, 9, 0, 'clockwise', 'multi-quadrant', 'dark')
    arc('return', circle, 7, 1, 'clockwise', 'multi-quadrant', 'dark')
    for way in ('clockwise', 'counterclockwise'):
        for turn, sweep in ((0, 3), (4, 2), (7, 1), (9, 3)) if way == 'clockwise' else ((3, 3), (6, 1), (10, 1), (2, 1)):
            quarter(way, turn, sweep, 'dark')
    arc('circle', circle, 0, 0, 'counterclockwise', 'multi-quadrant', 'dark')
    arc('unset', circle, 0, 3, 'counterclockwise', 'multi-quadrant', None)

    def flash(name, cls, args, at, pol, **kw):
        add('%s %s @%d %s' % (name, cls, at, pol), lambda L, p, u: L.new(P + cls, p[at], *args, **lp(pol, units=u, **kw)))
    for n, kw in HOLES:
        flash('flash' + n, 'Circle', (0.25,), 0, 'dark', **kw)
        flash('flash' + n, 'Rectangle', (0.25, 0.5), 1, 'clear' if n else 'dark', **kw)
        flash('flash' + n, 'Obround', (0.25, 0.5), 2, 'dark', **kw)
    flash('flash', 'Circle', (0.25,), 4, 'clear')
    flash('flash', 'Circle', (0.375,), 5, 'dark')
    flash('return', 'Circle', (0.25,), 7, 'dark')
    flash('near', 'Rectangle', (0.25, 0.5), 8, 'dark')
    flash('flash', 'Rectangle', (0.5, 0.25), 3, 'dark')
    flash('flash', 'Obround', (0.5, 0.25), 3, None)
    flash('flash', 'Rectangle', (0.25, 0.25), 3, 'dark')
    flash('flash', 'Obround', (0.25, 0.25), 1, 'dark')
    for sides, r, rot, kw in ((6, 0.25, 0, {}), (5, 0.25, 0, {}), (6, 0.125, 0, {}), (6, 0.25, 15.5, {}), (6, 0.25, 0, dict(hole_diameter=0.125)), (8, 0.5, -30.0, dict(hole_width=0.0625, hole_height=0.125))):
        add('flash %d-gon %s %s %s' % (sides, r, rot, sorted(kw)), lambda L, p, u, sides=sides, r=r, rot=rot, kw=kw:
            L.new(P + 'Polygon', p[1], sides, r, units=u, rotation=rot, level_polarity='dark', **kw))

    def group(name, parts, at, pol, stmt=True):
        add('macro %s @%d %s' % (name, at, pol), lambda L, p, u: macro(L, parts, p[at], pol, u, stmt))
    for n, parts in MACROS:
        group(n, parts, 0, 'dark')
    group(MACROS[0][0], MACROS[0][1], 1, 'clear')
    for n, parts in MACROS:
        group(n + ' made', parts, 2, 'dark', False)

    def region(name, cls, pol, build):
        def mk(L, p, u):
            kw = lp(pol, units=u)
            return L.new(P + cls, L.list(build(L, p, u)), **kw)
        add('%s %s %s' % (cls, name, pol), mk)

    def seg(L, a, b, u, ap=circle, **kw):
        return L.new(P + 'Line', a, b, ap(L, u, 0) if ap else None, units=u, **kw)

    def tri(a, b, c, **kw):
        return lambda L, p, u: [seg(L, p[a], p[b], u, **kw), seg(L, p[b], p[c], u, **kw), seg(L, p[c], p[a], u, **kw)]
    region('here', 'Region', 'dark', tri(0, 1, 2))
    region('open', 'Region', 'dark', lambda L, p, u: [seg(L, p[0], p[1], u), seg(L, p[1], p[2], u)])
    region('open apart', 'Region', 'clear', lambda L, p, u: [seg(L, p[3], p[1], u, level_polarity='clear'), L.new(P + 'Arc', p[1], p[2], p[6], 'clockwise', circle(L, u, 0), 'multi-quadrant', units=u, level_polarity='clear')])
    region('return', 'Region', 'dark', tri(7, 1, 2))
    region('near', 'Region', 'dark', tri(8, 0, 2))
    region('apart', 'Region', 'dark', tri(3, 1, 2, level_polarity='dark'))
    region('clear', 'Region', 'clear', tri(0, 1, 2, level_polarity='clear'))
    region('inherit', 'Region', 'clear', tri(3, 1, 2))
    region('arc', 'Region', 'dark', lambda L, p, u: [seg(L, p[2], p[3], u), L.new(P + 'Arc', p[3], p[2], p[6], 'clockwise', circle(L, u, 0), 'multi-quadrant', units=u)])
    region('arcs', 'Region', 'clear', lambda L, p, u: [L.new(P + 'Arc', p[0], p[2], p[6], 'clockwise', circle(L, u, 0), 'multi-quadrant', units=u),
                                                       L.new(P + 'Arc', p[2], p[0], p[6], 'counterclockwise', circle(L, u, 0), 'multi-quadrant', units=u)])
    region('arc line', 'Region', 'dark', lambda L, p, u: [L.new(P + 'Arc', p[1], p[2], p[6], 'counterclockwise', circle(L, u, 0), 'multi-quadrant', units=u),
                                                          seg(L, p[2], p[3], u), seg(L, p[3], p[1], u)])
    region('outline', 'Outline', 'dark', tri(1, 2, 3))
    region('outline', 'Outline', 'clear', tri(0, 2, 3))
    region('no aperture', 'Region', 'dark', tri(0, 1, 2, ap=None))
    return out


TINY = 2.0 ** -14     # a difference that the format still tells
# points of a circle of radius 1.25 around the origin, with exact coordinates
QUARTER = [(1.25, 0.0), (1.0, 0.75), (0.75, 1.0), (0.0, 1.25), (-0.75, 1.0), (-1.0, 0.75), (-1.25, 0.0), (-1.0, -0.75), (-0.75, -1.0), (0.0, -1.25), (0.75, -1.0), (1.0, -0.75)]
MACROS = [
    ('disc', (('AMCirclePrimitive', 1, 'on', 0.5, (0.0, 0.0)),)),
    ('two discs', (('AMCirclePrimitive', 1, 'on', 0.5, (0.25, 0.0)), ('AMCirclePrimitive', 1, 'on', 0.25, (-0.125, 0.5)))),
    ('ring', (('AMCirclePrimitive', 1, 'on', 0.5, (0.0, 0.0)), ('AMCirclePrimitive', 1, 'off', 0.25, (0.0, 0.0)))),
    ('not a ring', (('AMCirclePrimitive', 1, 'on', 0.5, (0.0, 0.0)), ('AMCirclePrimitive', 1, 'on', 0.25, (0.0, 0.0)))),
    ('diamond', (('AMOutlinePrimitive', 4, 'on', (0.0, -0.5), ((0.5, 0.0), (0.0, 0.5), (-0.5, 0.0), (0.0, -0.5)), 0.0),)),
    ('dart', (('AMOutlinePrimitive', 4, 'on', (0.0, -0.5), ((0.5, 0.5), (0.0, 0.0), (-0.5, 0.5), (0.0, -0.5)), 0.0),)),
    ('bar', (('AMCenterLinePrimitive', 21, 'on', 0.5, 0.25, (0.0, 0.0), 0),)),
    ('upright bar', (('AMCenterLinePrimitive', 21, 'on', 0.25, 0.5, (0.0, 0.0), 0),)),
    ('bar aside', (('AMCenterLinePrimitive', 21, 'on', 0.5, 0.25, (0.25, 0.125), 0),)),
    ('stroke', (('AMVectorLinePrimitive', 20, 'on', 0.125, (0.0, 0.0), (0.5, 0.0), 0),)),
    ('hexagon', (('AMPolygonPrimitive', 5, 'on', 6, (0.0, 0.0), 0.5, 0.0),)),
    ('turned hexagon', (('AMPolygonPrimitive', 5, 'on', 6, (0.0, 0.0), 0.5, 30.0),)),
]


def macro(L, parts, at, pol, units, stmt=True):
    ams = []
    for p in parts:
        args = [L.list(list(a)) if isinstance(a, tuple) and a and isinstance(a[0], tuple) else a for a in p[1:]]
        ams.append(L.new(A + p[0], *args))
    kw = {'units': units}
    if pol is not None:
        kw['level_polarity'] = pol
    if stmt:
        s = L.new('gerber.gerber_statements:AMParamStmt', 'AM', 'ORIGINAL', '')
        L.set(s, 'primitives', L.list(ams))
        L.set(s, 'units', units)
        kw['stmt'] = s
    g = L.new(P + 'AMGroup', L.list(ams), **kw)
    if at is not None:
        L.set(g, 'position', at)
    return g


def hole(L, o):
    return tuple(0 if v is None else v for v in (L.get(o, a) for a in HOLE))


def aperture(L, o):
    if o is None:
        return None
    c = L.cls_of(o)
    if c == 'Circle':
        return (c, L.get(o, 'diameter')) + hole(L, o)
    if c in ('Rectangle', 'Obround'):
        return (c, L.get(o, 'width'), L.get(o, 'height')) + hole(L, o)
    if c == 'Polygon':
        return (c, L.get(o, 'radius'), L.get(o, 'sides'), L.get(o, 'rotation')) + hole(L, o)
    at = L.get(o, 'position') or (0.0, 0.0)
    return (c,) + tuple(shift(desc(L, q), at) for q in L.items(L.get(o, 'primitives')))


def shift(d, at):
    """A description relative to a position."""
    if isinstance(d, tuple) and len(d) == 2 and all(is_num(v) for v in d):
        return (d[0] - at[0], d[1] - at[1])
    return tuple(shift(x, at) for x in d) if isinstance(d, tuple) else d


def desc(L, p, pol=None, aps=True):
    """What a primitive draws."""
    c = L.cls_of(p)
    own = L.get(p, 'level_polarity')
    pol = own if own is not None else (pol or 'dark')
    if c == 'Line':
        return (c, L.get(p, 'start'), L.get(p, 'end'), pol) + ((aperture(L, L.get(p, 'aperture')),) if aps else ())
    if c == 'Arc':
        return (c, L.get(p, 'start'), L.get(p, 'end'), L.get(p, 'center'), L.get(p, 'direction'), L.get(p, 'quadrant_mode'), pol) + ((aperture(L, L.get(p, 'aperture')),) if aps else ())
    if c in ('Region', 'Outline'):
        return ('Region', pol) + tuple(desc(L, q, pol, False) for q in L.items(L.get(p, 'primitives')))
    if c == 'AMGroup':
        return (c, L.get(p, 'position'), pol) + tuple(desc(L, q) for q in L.items(L.get(p, 'primitives')))
    return ('Flash', L.get(p, 'position'), pol, aperture(L, p))


def scan(O, L, key, text, kinds):
    """Aperture numbers of the text: from 10, defined once, defined before use."""
    where = L.where('gerber.render.rs274x_backend:Rs274xContext', 'dump')
    defs, used = [], []
    names = []
    for ln in text.split('\n'):
        m = re.match(r'%ADD(\d+)([^*]*)\*%$', ln)
        if m:
            defs.append((int(m.group(1)), m.group(2)))
            if used:
                O.fail(key + ':late', where, 'aperture D%s is defined after apertures are used' % m.group(1))
        m = re.match(r'%AM([^*]*)\*', ln)
        if m:
            names.append(m.group(1))
        m = re.match(r'(?:G54)?D(\d+)\*$', ln)
        if m:
            if int(m.group(1)) > 3:     # otherwise an operation
                used.append(int(m.group(1)))
    ds = [d for d, _ in defs]
    O.equal(key + ':numbers', len(set(ds)) == len(ds) and all(d >= 10 for d in ds), True, where, 'aperture numbers %s differ and are 10 or more' % ds)
    O.equal(key + ':defined', set(used) <= set(ds), True, where, 'apertures used %s are defined %s' % (used, ds))
    std = [t for _, t in defs if t not in names]
    O.equal(key + ':shared', len(std) == len(set(std)), True, where, 'equal apertures share a definition: %s' % std)
    lines = [ln for ln in text.split('\n') if ln]
    O.equal(key + ':ends', lines[-1], ['M02*', 'M00*'], where, 'last line of the text')
    O.equal(key + ':starts', (lines[0][:3], lines[1][:3]), ('%FS', '%MO'), where, 'first lines of the text')
    return len(defs)


def points(k, prev, prev2, first=None):
    """Points for the k-th primitive of a sequence; pts[0] is the end of the one before."""
    pt = lambda i: (0.25 * (5 * k + i) - 3.5, 7.75 - 0.125 * ((5 * k + i) * 7 % 997))
    return [prev] + [pt(i) for i in range(3)] + [(pt(0)[0], prev[1]), (prev[0], pt(0)[1]), pt(3), prev2, (prev[0] + TINY, prev[1]), (prev[0], prev[1] - TINY), first or prev]


def first(L, p):
    c = L.cls_of(p)
    if c in ('Line', 'Arc'):
        return L.get(p, 'start')
    if c in ('Region', 'Outline'):
        return first(L, L.items(L.get(p, 'primitives'))[0])
    return L.get(p, 'position')


def last(L, p):
    c = L.cls_of(p)
    if c in ('Line', 'Arc'):
        return L.get(p, 'end')
    if c in ('Region', 'Outline'):
        return last(L, L.items(L.get(p, 'primitives'))[-1])
    return L.get(p, 'position')


def check(O, L, key, build, fmt, zs, units, note='', opts=()):
    """build(L) -> primitives to render."""
    where = L.where('gerber.render.rs274x_backend:Rs274xContext', 'dump')
    L.fresh()
    c11.C.reset()
    box = {}

    def go():
        ps = build()
        box['a'] = [desc(L, p) for p in ps]
        ctx = L.new('gerber.render.rs274x_backend:Rs274xContext', c11.settings(L, fmt, zs, units=units))
        for a, v in opts:
            L.set(ctx, a, v)
        for p in ps:
            L.call(ctx, 'render', p)
        box['after'] = [desc(L, p) for p in ps]
        t = L.call(L.call(ctx, 'dump'), 'getvalue')
        box['t'] = t
        g = L.I.call(L.obj_from('gerber.rs274x:loads'), [t], {})
        box['b'] = [desc(L, p) for p in L.items(L.get(g, 'primitives'))]
        st = L.get(g, 'settings')
        box['set'] = (c11.value(L, L.get(st, 'format')), L.get(st, 'zero_suppression'), L.get(st, 'units'), L.get(st, 'notation'))
        box['units'] = set(L.get(p, 'units') for p in L.items(L.get(g, 'primitives')))
    oc = L.run(go)
    O.note(L)
    L.I.call_log.clear()
    if not O.outcome(key, oc, where, 'rendering to Gerber text and reading it back' + note):
        return None
    scan(O, L, key, box['t'], len(box['a']))
    O.equal(key + ':settings', box['set'], (fmt, zs, units, 'absolute'), where, 'format, suppression, units and notation of the text')
    O.equal(key + ':units', box['units'] <= {units}, True, where, 'units of the primitives read back: %s' % box['units'])
    O.equal(key + ':kept', len(box['after']), len(box['a']), where, 'primitives after rendering')
    for i in range(max(len(box['a']), len(box['b']))):
        a = box['a'][i] if i < len(box['a']) else None
        b = box['b'][i] if i < len(box['b']) else None
        if O.equal('%s:%d' % (key, i), b, a, where, 'primitive %d%s rendered to Gerber text and read back' % (i + 1, note)) is False:
            return None
        if i < len(box['a']):
            O.equal('%s:%d:same' % (key, i), box['after'][i], a, where, 'primitive %d itself after rendering' % (i + 1))
    return box


VARIANTS = (((2, 5), 'trailing', 'inch'), ((3, 4), 'leading', 'metric'))


def sequence(L, alpha, ks, units):
    prev, prev2 = (100.5, -2.75), (-100.5, 2.75)
    ps, start = [], None
    for k, n in enumerate(ks):
        p = alpha[n][1](L, points(k, prev, prev2, start), units)
        start = first(L, p)
        ps.append(p)
        prev, prev2 = last(L, p), prev
    return ps


def run(O, thorough):
    L = Lab(['gerber.rs274x', 'gerber.cam', 'gerber.render.rs274x_backend'], stubs=c11.STUBS)
    alpha = alphabet()
    seq = bruijn(len(alpha), 2)
    size = 40
    jobs = []
    for n, i in enumerate(range(0, len(seq), size)):
        ks = [seq[(i + k) % len(seq)] for k in range(size + 1)]
        for v in VARIANTS if thorough else (VARIANTS[n % 2],):
            jobs.append((v, ks))

    def one(job):
        (fmt, zs, units), ks = job
        names = ', '.join(alpha[k][0] for k in ks)
        check(O, L, 'seq:%s..%08x' % (names[:30], hash_(names)), lambda: sequence(L, alpha, ks, units), fmt, zs, units, ' among ' + names[:80])
    parallel(O, jobs, one)

    def alone(job):
        n, (fmt, zs, units) = job
        check(O, L, 'alone:%s:%s' % (alpha[n][0], units), lambda: sequence(L, alpha, [n], units), fmt, zs, units, ' (%s)' % alpha[n][0])
    parallel(O, [(n, v) for n in range(len(alpha)) for v in VARIANTS], alone)

    def options(job):
        opts, ks, (fmt, zs, units) = job
        names = ', '.join(alpha[k][0] for k in ks)
        check(O, L, 'option:%s:%s..%08x' % (opts, names[:30], hash_(names)), lambda: sequence(L, alpha, ks, units), fmt, zs, units, ' with %s = %s' % opts, opts=(opts,))
    some = [n for n, (name, _) in enumerate(alpha) if not name.startswith('quarter') and (n % 3 == 0 or name.startswith(('flash', 'Region')))]
    seq = [some[k] for k in bruijn(len(some), 2)]
    parallel(O, [(o, [seq[(i + k) % len(seq)] for k in range(61)], VARIANTS[0]) for o in (('condensed_flash', False), ('explicit_region_move_end', True))
                 for n, i in enumerate(range(0, len(seq), 60)) if thorough or n % 3 == 0 or i > len(seq) - 120], options)
    comments(O, L, alpha)
    alike(O, L)
    kin(O, L)
    files(O, L)


BASE = (('AMOutlinePrimitive', 4, 'on', (-1.0, -1.0), ((1.0, -1.0), (0.5, 0.0), (0.25, 0.5), (1.0, 1.0), (-1.0, 1.0), (-0.5, 0.25), (-1.0, -1.0)), 0.0), ('AMCirclePrimitive', 1, 'on', 0.25, (0.5, -0.25)),
        ('AMPolygonPrimitive', 5, 'on', 6, (-0.25, 0.125), 0.5, 0.0), ('AMCenterLinePrimitive', 21, 'off', 0.5, 0.25, (0.0, 0.5), 0))


def changed(parts):
    """Macros that differ from this one in one number or word."""
    def ways(v):
        if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0].startswith('AM'):
            for i in range(2, len(v)):
                if i == 2 or not (v[0] == 'AMOutlinePrimitive' and i == 3):
                    for w in ways(v[i]):
                        x = v[:i] + (w,) + v[i + 1:]
                        yield x if v[0] != 'AMOutlinePrimitive' else x[:3] + (x[4][-1],) + x[4:]
        elif isinstance(v, tuple):
            for i in range(len(v)):
                for w in ways(v[i]):
                    yield v[:i] + (w,) + v[i + 1:]
        elif isinstance(v, str):
            yield {'on': 'off', 'off': 'on'}[v]
        elif isinstance(v, int) and v > 1:
            yield v + 1
        elif isinstance(v, float):
            yield v + 0.125
    for i in range(len(parts)):
        for w in ways(parts[i]):
            if w[0] != 'AMOutlinePrimitive' or w[5] == 0:
                yield parts[:i] + (w,) + parts[i + 1:]
        yield parts[:i] + parts[i + 1:]
        yield parts[:i] + (parts[i], parts[i]) + parts[i + 1:]
        if i:
            yield parts[:i - 1] + (parts[i], parts[i - 1]) + parts[i + 1:]


def alike(O, L):
    """Macros that are nearly the same keep apart."""
    def one(job):
        n, parts, stmt = job

        def build():
            return [macro(L, q, at, 'dark', 'inch', stmt) for q, at in ((BASE, (0.0, 0.0)), (parts, (0.5, 0.25)), (BASE, (4.0, 1.5)), (parts, (-3.0, 0.0)))]
        check(O, L, 'alike:%d:%s' % (n, stmt), build, (2, 5), 'trailing', 'inch', ' of nearly equal macros (%s)' % (parts,))
    parallel(O, [(n, p, s) for n, p in enumerate(changed(BASE)) for s in (True, False)], one)


def kin(O, L):
    """Standard apertures that are nearly the same keep apart."""
    sizes = ((0.25, 0.5), (0.5, 0.25), (0.25, 0.25), (0.125, 1.0), (0.5, 0.5))
    holes = [{}] + [dict(hole_diameter=d) for d in (0.0625, 0.125)] + \
        [dict(hole_width=w, hole_height=h) for w, h in ((0.0625, 0.125), (0.125, 0.0625), (0.0625, 0.0625), (0.125, 0.125), (0.03125, 0.25))]
    some = {'Circle': [(d,) for d in (0.25, 0.5, 0.125)], 'Rectangle': sizes, 'Obround': sizes,
            'Polygon': [(sides, r, rot) for sides in (5, 6) for r, rot in ((0.25, 0), (0.25, 15.5), (0.25, -15.5), (0.25, 30.0), (0.25, 195.5), (0.25, 210.0), (0.5, 0), (0.5, 15.5))]}

    def one(job):
        kinds, stroke = job

        def make(cls, size, kw, at, u='inch', **more):
            kw = dict(kw, units=u, **more)
            if cls == 'Polygon':
                kw['rotation'], size = size[2], size[:2]
            return L.new(P + cls, at, *size, **kw)

        def build():
            out = []
            all_ = [(c, size, kw) for c in kinds for kw in holes for size in some[c]]
            n = 0
            for cls, size, kw in all_ + all_[::-1] + all_[::3]:
                at = (0.125 * n - 3.5, 7.75 - 0.25 * (n * 7 % 97))
                if stroke:
                    out.append(L.new(P + 'Line', at, (at[0] + 1.5, at[1] + 0.75), make(cls, size, kw, None), level_polarity='dark', units='inch'))
                else:
                    out.append(make(cls, size, kw, at, level_polarity='dark'))
                n += 1
            return out
        check(O, L, 'kin:%s:%s' % ('+'.join(kinds), 'strokes' if stroke else 'flashes'), build, (2, 5), 'trailing', 'inch', ' of nearly equal apertures')
    parallel(O, [((c,), st) for c in some for st in (False, True)] + [(('Rectangle', 'Obround'), False), (('Circle', 'Polygon'), False), (('Circle', 'Rectangle'), True)], one)


def comments(O, L, alpha):
    where = L.where('gerber.render.rs274x_backend:Rs274xContext', 'pre_render_primitive')
    for n, (name, _) in enumerate(alpha):
        L.fresh()
        c11.C.reset()
        box = {}

        def go():
            ps = sequence(L, alpha, [0, n, 1], 'inch')
            for p, t in zip(ps, (None, 'first note', 'note 2')):
                if t:
                    L.set(p, 'comment', t)
            ctx = L.new('gerber.render.rs274x_backend:Rs274xContext', c11.settings(L, (2, 5), 'trailing'))
            for p in ps:
                L.call(ctx, 'render', p)
            g = L.I.call(L.obj_from('gerber.rs274x:loads'), [L.call(L.call(ctx, 'dump'), 'getvalue')], {})
            box['c'] = tuple(L.items(L.get(g, 'comments')))
            box['n'] = len(L.items(L.get(g, 'primitives')))
        oc = L.run(go)
        O.note(L)
        if O.outcome('comment:%s' % name, oc, where, 'rendering commented primitives'):
            O.equal('comment:%s' % name, (box['c'], box['n']), (('first note', 'note 2'), 3), where, 'comments and primitives of the text of a line, a %s and a line' % name)


PROGRAMS = {
    'macro sizes': '%AMV*1,1,$1,0,0*%\n%ADD20V,0.5*%\n%ADD21V,0.75*%\nD20*\nX1Y1D03*\nD21*\nX2Y2D03*\nD20*\nX3Y1D03*\n',
    'macro sum': '%AMV*$3=$1+0.25*1,1,$3,0,0*21,1,$1,$2,0,0,0*%\n%ADD20V,0.5X0.125*%\n%ADD21V,0.75X0.25*%\nD20*\nX1Y1D03*\nD21*\nX2Y2D03*\n',
    'macro ring': '%AMRING*1,1,0.5,0,0*1,0,0.25,0,0*%\n%AMDISC*1,1,0.5,0,0*1,1,0.25,0,0*%\n%ADD20RING*%\n%ADD21DISC*%\nD20*\nX1Y1D03*\nD21*\nX2Y2D03*\nD20*\nX3Y3D03*\n',
    'macro order': '%AMB*1,1,0.5,0,0*0 a note*4,1,3,0,0,0.5,0,0,0.5,0,0,0*5,1,6,0.25,0.5,1,10*%\n%ADD20B*%\nD20*\nX1Y1D03*\n%LPC*%\nX2Y1D03*\n',
    'macro name': '%AMC*1,1,0.5,0,0*%\n%AMR1*1,1,0.25,0,0*%\n%ADD10R1*%\n%ADD11C,0.125*%\nD10*\nX1Y1D03*\nD11*\nX2Y1D03*\n',
    'standard': '%ADD10C,0.125*%\n%ADD11R,0.25X0.5*%\n%ADD12O,0.5X0.25X0.0625*%\n%ADD13P,0.5X6X15X0.125*%\nD10*\nX1Y1D03*\nD11*\nX1Y1D03*\nD12*\nX2D03*\nD13*\nY2D03*\nD10*\nX3Y3D02*\nX4D01*\nY4D01*\nX3Y3D01*\n',
    'same twice': '%ADD10C,0.125*%\n%ADD11C,0.125*%\nD10*\nX1Y1D03*\nD11*\nX1Y2D03*\nD10*\nX3Y3D02*\nG01X4D01*\nD11*\nX5D01*\n',
    'regions': '%ADD10C,0.125*%\nD10*\nG36*\nX1Y1D02*\nG01X2D01*\nY2D01*\nX1Y1D01*\nX5Y5D02*\nX6D01*\nG75*\nG03X5Y5I0J1D01*\nG37*\nX7D01*\n%LPC*%\nG36*\nX1Y1D02*\nX2D01*\nY2D01*\nX1Y1D01*\nG37*\n%LPD*%\nX8Y8D03*\n',
    'no aperture': 'G36*\nX1Y1D02*\nG01X2D01*\nY2D01*\nX1Y1D01*\nG37*\n',
    'arcs': '%ADD10C,0.125*%\nD10*\nG75*\nX1Y1D02*\nG02X3Y3I1J1D01*\nG03X5Y1I1J-1D01*\nG01X6D01*\nG02X6Y1I1J1D01*\nX7D02*\nG03X9I1D01*\n',
    'clear': '%ADD10C,0.125*%\nD10*\n%LPC*%\nX1Y1D02*\nX2D01*\n%LPD*%\nX3D01*\nD03*\n%LPC*%\nD03*\n',
    'empty': '',
}


def files(O, L):
    """Files that were read and rendered through CamFile.render, with and without a name."""
    where = L.where('gerber.cam:CamFile', 'render')
    stubs = {'gerber.utils:write_gerber_value': c11.C.write, 'gerber.utils:parse_gerber_value': lambda I, a, k: float(a[0]) if a[0] not in c11.C.texts else c11.C.read(I, a, k)}
    L = Lab(['gerber.rs274x', 'gerber.cam', 'gerber.render.rs274x_backend'], stubs=stubs)

    def one(job):
        name, unit, name_out, convert = job
        key = 'file:%s:%s:%s:%s' % (name, unit, name_out, convert)
        L.fresh()
        c11.C.reset()
        box = {}

        def go():
            load = L.obj_from('gerber.rs274x:loads')
            f = L.I.call(load, ['%FSLAX24Y24*%\n%MO' + unit[:2].upper() + '*%\n' + PROGRAMS[name] + 'M02*\n'], {})
            if convert:
                L.call(f, convert)
            box['a'] = [desc(L, p) for p in L.items(L.get(f, 'primitives'))]
            ctx = L.new('gerber.render.rs274x_backend:Rs274xContext', L.get(f, 'settings') if not convert else c11.settings(L, (3, 5), 'leading', units=L.get(f, 'units')))
            del L.I.st.events[:]
            L.call(f, 'render', ctx, **({'filename': name_out} if name_out else {}))
            hs = [e[1] for e in L.I.st.events if e[0] == 'open']
            box['f'] = [(h[0], ''.join(L.items(L.get(h[2], 'out')))) for h in hs]
            box['t'] = L.call(L.call(ctx, 'dump'), 'getvalue')
            box['b'] = [desc(L, p) for p in L.items(L.get(L.I.call(load, [box['t']], {}), 'primitives'))]
        oc = c11.openable(L.run(go))
        O.note(L)
        L.I.call_log.clear()
        if not O.outcome(key, oc, where, 'rendering a file (%s) to Gerber text' % name):
            return
        O.equal(key + ':count', len(box['b']), len(box['a']), where, 'primitives of the file (%s) rendered to Gerber text and read back' % name)
        for i, (a, b) in enumerate(zip(box['a'], box['b'])):
            if O.equal('%s:%d' % (key, i), six_(b), six_(a), where, 'primitive %d of a file (%s) rendered to Gerber text and read back' % (i + 1, name)) is False:
                break
        scan(O, L, key, box['t'], 0)
        O.equal(key + ':named', box['f'] == ([(name_out, box['t'])] if name_out else []), True, where, 'the text is written to %s' % name_out)
    parallel(O, [(n, u, o, c) for n in sorted(PROGRAMS) for u in ('inch', 'mm') for o, c in ((None, None), ('out.gbr', None), (None, 'to_metric'), (None, 'to_inch'))], one)


def six_(v):
    if isinstance(v, tuple):
        return tuple(six_(x) for x in v)
    return float('%.5g' % v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v
