"""C06 derived geometry is never stale."""
from sa.lab import *
from .prims import specs, read, Spec, dir_arc, on_circle, ARC_ATTRS

RULE = ('Staleness analysis by abstract interpretation: for every primitive class, derived geometry (bounding box, vertices, segments, sizes) '
        'is read once so that any cache is filled, then each public mutation (assignment of each published attribute, offset, to_inch, '
        'to_metric) is applied, and the derived geometry read afterwards must equal that of a twin object that received the same mutation '
        'with no earlier read. Compared as polynomial/Herbrand normal forms over labelled inputs.')
ASSUMPTIONS = ['mutation through private attributes is out of scope', 'convex hulls are represented by their candidate points']

DERIVED = ['bounding_box', 'bounding_box_no_aperture', 'vertices', 'segments', 'axis_aligned_width', 'axis_aligned_height', 'lower_left',
           'upper_right', 'radius', 'hole_radius', 'subshapes', 'orientation', 'angle', 'start_angle', 'end_angle', 'sweep_angle', 'width', 'height']


def expand(L, v, depth=0):
    if isinstance(v, Opt):
        return ('opt', expand(L, v.v, depth))
    if isinstance(v, tuple):
        return tuple(expand(L, x, depth) for x in v)
    if isinstance(v, Choice):
        return ('choice',) + tuple(sorted((expand(L, x, depth) for x in v.vals), key=vkey))
    if isinstance(v, Ref) and depth < 4:
        h = L.I.st.get(v)
        if h.kind == 'list':
            return tuple(expand(L, x, depth + 1) for x in h.items)
        if h.kind == 'dict':
            return tuple(sorted(((k, expand(L, x[1], depth + 1)) for k, x in h.d.items()), key=lambda t: t[0]))
        if h.kind == 'obj':
            return (h.cls.name,) + tuple((a, expand(L, L.get(v, a), depth + 1)) for a in ('position', 'width', 'height', 'diameter')
                                         if a in h.attrs or '_' + a in h.attrs)
    return v


def derived(L, o):
    out = {}
    for a in DERIVED:
        r = L.run(lambda: expand(L, L.get(o, a)))
        if r.kind == 'ok':
            out[a] = r.value
    return out


def mutations(L, s):
    """[(name, thunk(o))]: every way the public API changes the object."""
    out = []
    for a, k in s.attrs.items():
        if k == 'P':
            out.append(('set ' + a, lambda o, a=a: L.set(o, a, (sym('n_' + a + '_x'), sym('n_' + a + '_y')))))
        elif k == 'L' and a not in ('hole_radius',):
            out.append(('set ' + a, lambda o, a=a: L.set(o, a, sym('n_' + a, '+'))))
        elif k == 'K':
            new = {'rotation': sym('n_rot'), 'sides': 7, 'direction': 'counterclockwise' if 'clockwise' in s.name and 'counter' not in s.name else 'clockwise',
                   'quadrant_mode': 'single-quadrant' if 'multi' in s.name else 'multi-quadrant', 'corners': (False, True, False, True)}.get(a)
            if a == 'rotation':
                for turn in (270.0, -30.0, 0.0, 180.0, 405.0):
                    out.append(('set rotation %g' % turn, lambda o, turn=turn: L.set(o, 'rotation', turn)))
            if new is not None:
                out.append(('set ' + a, lambda o, a=a, new=new: L.set(o, a, new)))
        elif k == 'A':
            out.append(('set aperture', lambda o: L.set(o, 'aperture', L.new('gerber.primitives:Circle', (0.0, 0.0), sym('nap.d', '+'), units='inch'))))
    out.append(('offset', lambda o: L.call(o, 'offset', sym('dx'), sym('dy'))))
    out.append(('to_metric', lambda o: L.call(o, 'to_metric')))
    return out


def arc_mutations(L):
    S = lambda a, v: ('set ' + a, lambda o: L.set(o, a, v))

    def near(a, deg, k):
        # relative to the current centre, so that the directions stay known
        def go(o):
            c, q = L.get(o, 'center'), on_circle(deg, k)
            L.set(o, a, (c[0] + q[0] - sym('cx'), c[1] + q[1] - sym('cy')))
        return ('set ' + a, go)

    return [near('start', 200, 2.0), near('end', 300, 2.0), near('center', 45, 0.25),
            ('set aperture', lambda o: L.set(o, 'aperture', L.new('gerber.primitives:Circle', (0.0, 0.0), sym('nap.d', '+'), units='inch'))),
            S('direction', 'clockwise'), S('direction', 'counterclockwise'), S('quadrant_mode', 'single-quadrant'), S('quadrant_mode', 'multi-quadrant'),
            ('offset', lambda o: L.call(o, 'offset', sym('dx'), sym('dy'))), ('to_metric', lambda o: L.call(o, 'to_metric'))]


def seq(*ms):
    def f(o):
        for m in ms:
            m(o)
    return f


def run(O, thorough):
    L = Lab(['gerber.primitives', 'gerber.am_statements'])
    for rot in ([0, sym('rot')] if not thorough else [0, 90, sym('rot')]):
        ss = [s for s in specs(rot) if s.cls != 'Arc']
        if rot == 0:
            for d in ('clockwise', 'counterclockwise'):
                for q in ('single-quadrant', 'multi-quadrant'):
                    for a0, a1 in ((30, 100), (130, 20)):
                        ss.append(Spec('Arc', dir_arc(d, q, a0, a1), ARC_ATTRS, '%s-%s-%d-%d' % (d, q, a0, a1)))
        for s in ss:
            if rot != 0 and 'rotation' not in s.attrs:
                continue
            tag = s.name + ('' if rot == 0 else '@rot=%s' % show(rot))
            muts = arc_mutations(L) if s.cls == 'Arc' else mutations(L, s)
            if thorough:
                muts = muts + [(n1 + ' then ' + n2, seq(m1, m2)) for n1, m1 in muts for n2, m2 in muts if n1 != n2]
            for name, mut in muts:
                L.fresh()
                box = {}

                def go():
                    a = s.build(L, 'inch')
                    derived(L, a)
                    mut(a)
                    box['a'] = derived(L, a)
                    return None
                key = '%s:%s' % (tag, name)
                oc = L.run(go)
                pa = box.get('a')
                L.fresh()

                def go2():
                    b = s.build(L, 'inch')
                    mut(b)
                    box['b'] = derived(L, b)
                oc2 = L.run(go2)
                O.note(L)
                if oc2.kind == 'raise' and oc2.value == 'AttributeError':
                    continue        # not a settable attribute
                where = L.where('gerber.primitives:' + s.cls)
                if not O.outcome(key, oc2, where, name) or not O.outcome(key, oc, where, name):
                    continue
                for d, v in box['b'].items():
                    O.equal('%s:%s' % (key, d), box['a'].get(d, MISSING), v, L.where('gerber.primitives:' + s.cls, d), '%s.%s read again after %s' % (s.cls, d, name))
        if rot == 0 or not isinstance(rot, Poly):
            assigned(O, L, ss, rot)


def assigned(O, L, ss, rot):
    """A value assigned is the value read; a rotation assigned gives the shape built with it."""
    for s in ss:
        for a, k in s.attrs.items():
            new = {'P': (sym('n_x'), sym('n_y')), 'L': sym('n_l', '+')}.get(k)
            if new is None or a == 'hole_radius':
                continue
            L.fresh()

            def go():
                o = s.build(L, 'inch')
                L.set(o, a, new)
                return L.get(o, a)
            oc = L.run(go)
            if oc.kind == 'raise' and oc.value == 'AttributeError':
                continue
            key = '%s:%s is what was assigned' % (s.name, a)
            where = L.where('gerber.primitives:' + s.cls, a)
            if O.outcome(key, oc, where, 'setting %s of %s' % (a, s.cls)):
                O.equal(key, oc.value, new, where, '%s.%s read after it was set' % (s.cls, a))
        if 'rotation' not in s.attrs:
            continue
        for turn in (270.0, -30.0, 0.0, 180.0, 405.0, 90.0):
            twin = [t for t in specs(turn) if t.name == s.name]
            if len(twin) != 1:
                continue
            box = {}
            L.fresh()

            def go():
                o = s.build(L, 'inch')
                L.set(o, 'rotation', turn)
                box['r'] = L.get(o, 'rotation')
                box['a'] = derived(L, o)
                o = twin[0].build(L, 'inch')
                box['q'] = L.get(o, 'rotation')
                box['b'] = derived(L, o)
            oc = L.run(go)
            key = '%s:turned to %g' % (s.name, turn)
            where = L.where('gerber.primitives:Primitive', 'rotation')
            if not O.outcome(key, oc, where, 'setting the rotation of %s' % s.cls):
                continue
            if box['q'] != turn:
                continue        # this builder does not pass the rotation on
            O.equal(key + ':rotation', box['r'], turn, where, '%s.rotation after it was set' % s.cls)
            for d, v in box['b'].items():
                O.equal('%s:%s' % (key, d), box['a'].get(d, MISSING), v, L.where('gerber.primitives:' + s.cls, d), '%s.%s of a shape turned to %g, as of one made so' % (s.cls, d, turn))
