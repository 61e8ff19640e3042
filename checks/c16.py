"""C16 rendering asks the context for each primitive once, in order."""
import itertools

from sa.lab import *
from .picture import project
from .strs import *

RULE = ('Abstract interpretation of GerberContext.render and CamFile.render with a recording context: the calls made for every kind of primitive, every pair of '
        'kinds and every file are compared with one hook before, one drawing method of the kind with the color of the context, one hook after, in file order; '
        'color, alpha and unit setters are run over values inside, on and outside their limits.')
ASSUMPTIONS = ['a context subclass draws what its drawing methods are asked for']
PR = 'gerber.primitives:'
REC = 'recorder:Recorder'
BASE = 'gerber.render.render:GerberContext'
CAM = 'gerber.cam:CamFile'


def kinds():
    c = (sym('x'), sym('y'))
    d, e = sym('d', '+'), sym('e', '+')

    def ap(L):
        return L.new(PR + 'Circle', (0, 0), d)

    def lines(L):
        return L.list([L.new(PR + 'Line', a, b, ap(L), level_polarity='dark') for a, b in (((0, 0), (1, 0)), ((1, 0), (1, 1)), ((1, 1), (0, 0)))])
    return [
        ('line', 'line', lambda L: L.new(PR + 'Line', c, (1, 2), ap(L), level_polarity='dark')),
        ('line of no length', 'line', lambda L: L.new(PR + 'Line', c, c, ap(L), level_polarity='clear')),
        ('arc', 'arc', lambda L: L.new(PR + 'Arc', (1, 0), (0, 1), (0, 0), 'clockwise', ap(L), 'multi-quadrant')),
        ('region', 'region', lambda L: L.new(PR + 'Region', lines(L))),
        ('empty region', 'region', lambda L: L.new(PR + 'Region', L.list([]))),
        ('circle', 'circle', lambda L: L.new(PR + 'Circle', c, d)),
        ('clear circle', 'circle', lambda L: L.new(PR + 'Circle', c, d, level_polarity='clear')),
        ('circle of no size', 'circle', lambda L: L.new(PR + 'Circle', c, 0)),
        ('rectangle', 'rectangle', lambda L: L.new(PR + 'Rectangle', c, d, e)),
        ('obround', 'obround', lambda L: L.new(PR + 'Obround', c, d, e)),
        ('polygon', 'polygon', lambda L: L.new(PR + 'Polygon', c, 6, d)),
        ('drill', 'drill', lambda L: L.new(PR + 'Drill', c, d)),
        ('slot', 'slot', lambda L: L.new(PR + 'Slot', c, (1, 2), d)),
        ('macro', 'amgroup', lambda L: L.new(PR + 'AMGroup', L.list([L.new('recorder:Shape', L.new(PR + 'Circle', c, d))]))),
        ('outline', 'region', lambda L: L.new(PR + 'Outline', lines(L))),
        ('test point', 'test_record', lambda L: L.new(PR + 'TestRecord', c, 'NET', 'both')),
        ('donut', None, lambda L: L.new(PR + 'Donut', c, 'round', d, d + e)),
        ('diamond', None, lambda L: L.new(PR + 'Diamond', c, d, e)),
    ]


def want_calls(ps, color):
    out = []
    for kind, p in ps:
        if p is None:
            continue
        out.append(('pre', p))
        if kind:
            out.append((kind, p, color))
        out.append(('post', p))
    return out


def calls(L, ctx):
    return [tuple(c) for c in L.items(L.get(ctx, 'calls'))]


def compare(O, L, key, where, got, want):
    if len(got) != len(want):
        O.fail(key, where, '%s: the context is asked for %s, expected %s' % (key, ' '.join(g[0] for g in got), ' '.join(w[0] for w in want)))
        return
    for n, (g, w) in enumerate(zip(got, want)):
        k = '%s:%d' % (key, n)
        if g[0] != w[0]:
            O.fail(k, where, '%s: call %d is %s, expected %s' % (key, n, g[0], w[0]))
        elif any(isinstance(b, Ref) and L.I.st.get(b).kind == 'obj' and a != b for a, b in zip(g[1:], w[1:])):
            O.fail(k, where, '%s: %s is asked for with another primitive' % (key, g[0]))
        else:
            O.equal(k, tuple(x for x in g if not isinstance(x, Ref)), tuple(x for x in w if not isinstance(x, Ref)), where, '%s: arguments of call %d' % (key, n))


def run(O, thorough):
    L = Lab(['gerber.render.render', 'gerber.primitives', 'gerber.cam', 'recorder'], project=project())
    ks = kinds()
    color = tuple(sym(c, '0+') for c in 'rgb')
    where = L.where(BASE, 'render')
    # one primitive after another
    seqs = [((k,), pol, inv, units) for k in ks for pol in ('dark', 'clear') for inv in (False, True) for units in (None, 'inch', 'metric')]
    seqs += [((a, b), None, False, None) for a in ks for b in ks]
    for seq, pol, inv, units in seqs:
        key = ', '.join(k[0] for k in seq) + (' %s%s' % (pol, ' inverted' if inv else '') if pol else '') + (' ' + units if units else '')
        L.fresh()
        box = {}

        def go():
            ctx = L.new(REC)
            L.set(ctx, '_color', color)
            L.set(ctx, '_drill_color', (0.25, .5, .75))
            box['ps'] = [(k[1], k[2](L)) for k in seq]
            L.set(ctx, '_invert', inv)
            for _, p in box['ps']:
                if pol:
                    L.set(p, 'level_polarity', pol)
                    L.set(p, '_units', units)
                    L.set(p, 'net_name', 'A' if inv else None)
                L.call(ctx, 'render', p)
            L.call(ctx, 'render', None)
            return calls(L, ctx)
        oc = L.run(go)
        if O.outcome(key, oc, where, 'rendering ' + key):
            compare(O, L, key, where, oc.value, want_calls(box['ps'], color))
    # the base class accepts every primitive without a drawing method
    for k in ks:
        L.fresh()

        def go():
            L.call(L.new(BASE), 'render', k[2](L))
        oc = L.run(go)
        if O.outcome('base ' + k[0], oc, where, 'rendering a %s with a context without drawing methods' % k[0]):
            O.ok('base ' + k[0])
    # files
    wf = L.where(CAM, 'render')
    bounds = ((sym('x0'), sym('x1')), (sym('y0'), sym('y1')))
    lists = [[], [0], [5, 6, 5], [16, 0, 11], list(range(len(ks))), list(range(len(ks)))[::-1], [0, 0, 0]]
    for n, (idx, inv, before, name) in enumerate(itertools.product(lists, (False, True), (False, True), (None, 'out.png', 'b.svg'))):
        key = 'file of %s%s%s%s' % ([ks[i][0] for i in idx] if len(idx) < 5 else '%d primitives from %s' % (len(idx), ks[idx[0]][0]), ', inverted' if inv else '', ', after an inverted one' if before else '', ', to ' + name if name else '')
        L.fresh()
        box = {}

        def go():
            ctx = L.new(REC)
            L.set(ctx, '_color', color)
            L.set(ctx, '_invert', before)
            box['ps'] = [(ks[i][1], ks[i][2](L)) for i in idx]
            b = L.new('recorder:Board', bounds, L.list([p for _, p in box['ps']]))
            L.call(b, 'render', ctx, inv, *([] if name is None else [name]))
            return calls(L, ctx)
        oc = L.run(go)
        if O.outcome(key, oc, wf, 'rendering a ' + key):
            want = [('set_bounds', bounds), ('paint_background',), ('new_render_layer', inv)] + want_calls(box['ps'], color) + [('flatten',)] + ([('dump', name)] if name else [])
            got = oc.value
            # the background and the bounds both come before the layer
            compare(O, L, key, wf, got, want)
    # settings of a context
    vals = (-1, -0.001, 0, 0.0, .5, 1, 1.0, 1.001, 2)
    for attr in ('color', 'drill_color', 'background_color'):
        w = L.where(BASE, attr)
        cases = [tuple(.5 if k != i else v for k in range(3)) for i in range(3) for v in vals] + [(0, 0, 0), (1, 1, 1), (0, 1, .25), (), (.5,), (.5, .5), (.5, .5, .5, .5), (2, .5, -1), (.1, .2, .3, 2)]
        for c in cases:
            setter(O, L, w, attr, c, 'TypeError' if len(c) != 3 else 'ValueError' if any(x < 0 or x > 1 for x in c) else None)
    for a in vals:
        setter(O, L, L.where(BASE, 'alpha'), 'alpha', a, 'ValueError' if a < 0 or a > 1 else None)
    for u in ('inch', 'metric', 'mm', 'Inch', '', None, 1):
        setter(O, L, L.where(BASE, 'units'), 'units', u, None if u in ('inch', 'metric') else 'ValueError')
    for u in ('inch', 'metric'):
        L.fresh()
        oc = L.run(lambda: L.get(L.new(BASE, u), 'units'))
        if O.outcome('made with units ' + u, oc, L.where(BASE, '__init__'), 'making a context'):
            O.equal('made with units ' + u, oc.value, u, L.where(BASE, '__init__'), 'units of a new context')
    O.note(L)


ALL = ('color', 'drill_color', 'background_color', 'alpha', 'units', 'invert')
START = {'color': (.1, .2, .3), 'drill_color': (.4, .5, .6), 'background_color': (.7, .8, .9), 'alpha': .25, 'units': 'inch', 'invert': False}


def setter(O, L, where, attr, v, error):
    key = '%s = %r' % (attr, v)
    L.fresh()
    box = {}

    def go():
        ctx = L.new(BASE)
        for a, x in START.items():
            L.set(ctx, a, x)
        box['ctx'] = ctx
        L.set(ctx, attr, v)
    oc = L.run(go)
    if oc.kind == 'undecided':
        O.undecided(key, oc.why)
        return
    if error:
        if oc.kind != 'raise' or oc.value != error:
            O.fail(key, where, 'assigning %s %s instead of raising %s' % (key, 'raises ' + str(oc.value) if oc.kind == 'raise' else 'is accepted', error))
            return
    elif oc.kind == 'raise':
        O.fail(key, where, 'assigning %s raises %s' % (key, oc.value))
        return
    for a in ALL:
        O.equal('%s:%s' % (key, a), L.get(box['ctx'], a), v if a == attr and not error else START[a], where, '%s after assigning %s' % (a, key))
