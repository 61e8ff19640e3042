"""C04 conversion and translation of whole files; C08 shares the builders."""
from sa.lab import *
from . import c01
from .prims import specs, read, N, scaled, circle, rect, pt
from .c05 import moved

RULE = ('Abstract interpretation of GerberFile and ExcellonFile to_inch()/to_metric()/offset() on files holding one statement of every class, one '
        'primitive of every class, shared and unshared apertures, tools, hits and slots, all with labelled lengths. Every length of every part must '
        'be scaled exactly once (once again on the way back), every absolute coordinate moved exactly once, the file, its settings and its parts '
        'tagged with the target unit, and everything else unchanged.')
ASSUMPTIONS = ['a file with one part of each class stands for all files: the methods treat parts one by one']

G = 'gerber.rs274x:GerberFile'
E = 'gerber.excellon:ExcellonFile'
XS = 'gerber.excellon_statements:'
KEEP = ('notation', 'zeros', 'zero_suppression', 'format')


def settings(L, units):
    return L.new('gerber.cam:FileSettings', notation='absolute', units=units, zero_suppression='trailing', format=(2, 5))


def file_settings(L, f):
    s = L.get(f, 'settings')
    return dict((a, L.get(s, a)) for a in KEEP + ('units',))


def stmt_read(L, o, attrs, unit):
    r = {}
    for a, k in attrs.items():
        v = L.get(o, a)
        r[a] = (k, c01.mods_of(L, v) if isinstance(k, tuple) else v)
    if unit:
        r['units'] = ('UNIT', L.get(o, unit))
    return r


def build_statements(L, prefix, units, code):
    out = []
    seen = set()
    for name, spec, build, attrs, unit in c01.entries(False):
        if not spec.startswith(prefix):
            continue
        if name.startswith('CoordStmt/') and name.split('/')[1] not in ('x', 'y', 'xy', 'xyij', 'none', 'i', 'xj') and name != 'CoordStmt/unit-code':
            continue
        o = build(L)
        for a, k in attrs.items():
            if k == 'U':
                L.set(o, a, units)
            elif k == 'UC':
                L.set(o, a, code[units])
        if unit:
            L.set(o, 'units', units)
        out.append((name, o, attrs, unit))
    return out


def gerber_file(L, units, parts='statements shapes lines apertures'):
    """A file with every kind of part: (file, [(name, read function)])."""
    sts = build_statements(L, c01.G, units, {'inch': 'G70', 'metric': 'G71'}) if 'statements' in parts else []
    prims = [(s.name, s.build(L, units), s.attrs) for s in specs(0)] if 'shapes' in parts else []
    ap = circle(L, units, 'shared')
    ap2 = rect(L, units, 'shared2')
    flash = circle(L, units, 'flash')
    L.set(flash, 'position', None)
    extra = [('shared line 1', L.new('gerber.primitives:Line', pt('l1a'), pt('l1b'), ap, units=units)),
             ('shared line 2', L.new('gerber.primitives:Line', pt('l2a'), pt('l2b'), ap, units=units)),
             ('shared line 3', L.new('gerber.primitives:Line', pt('l3a'), pt('l3b'), ap2, units=units)),
             ('shared arc', L.new('gerber.primitives:Arc', pt('l4a'), pt('l4b'), pt('l4c'), 'clockwise', ap, 'multi-quadrant', units=units))]
    for n, o in extra if 'lines' in parts else ():
        prims.append((n, o, {'start': 'P', 'end': 'P', 'aperture': 'A', 'center': 'P'} if 'arc' in n else {'start': 'P', 'end': 'P', 'aperture': 'A'}))
    aps = [('used', ap, {'diameter': 'L'}), ('used2', ap2, {'width': 'L', 'height': 'L'}), ('flash only', flash, {'diameter': 'L', 'position': 'K'})]
    if 'apertures' not in parts:
        aps = []
    f = L.new(G, L.list([o for _, o, _, _ in sts]), settings(L, units), L.list([o for _, o, _ in prims]), L.list([o for _, o, _ in aps]), filename='f')

    def rd():
        r = {}
        for (n, o, attrs, unit) in sts:
            for a, v in stmt_read(L, o, attrs, unit).items():
                r['statement %s.%s' % (n, a)] = v
        for i, (n, o, attrs) in enumerate(prims):
            for a, v in read(L, o, attrs).items():
                r['primitive %s.%s' % (n, a)] = v
            if n.startswith('TestRecord'):
                continue
            r['primitive %s.units' % n] = ('UNIT', L.get(o, 'units'))
        for n, o, attrs in aps:
            for a, k in attrs.items():
                r['aperture %s.%s' % (n, a)] = ('A' if k == 'L' else k, L.get(o, a))
            r['aperture %s.units' % n] = ('UNIT', L.get(o, 'units'))
        r['file.units'] = ('UNIT', L.get(f, 'units'))
        for a, v in file_settings(L, f).items():
            r['settings.' + a] = ('UNIT' if a == 'units' else 'K', v)
        r['statement count'] = ('K', len(L.items(L.get(f, 'statements'))))
        r['primitive count'] = ('K', len(L.items(L.get(f, 'primitives'))))
        return r
    return f, rd


def excellon_file(L, units, parts='statements tools hits'):
    sts = build_statements(L, c01.X, units, {}) if 'statements' in parts else []
    tools = L.I.new_dict()
    tl = []
    for n in (1, 2, 7, 5) if 'tools' in parts else ():      # no hit uses tool 5
        t = L.new(XS + 'ExcellonTool', L.new('gerber.cam:FileSettings', units=units), number=n, diameter=N('td%d' % n, '+'), rpm=N('rpm', '+'))
        L.I.bm.setitem(tools, n, t)
        tl.append(t)
    H, S = 'gerber.excellon:DrillHit', 'gerber.excellon:DrillSlot'
    hits = [] if 'hits' not in parts else [('hit 1', L.new(H, tl[0], pt('h1'))), ('hit 2', L.new(H, tl[0], pt('h2'))), ('hit 3', L.new(H, tl[1], pt('h3'))),
            ('slot 1', L.new(S, tl[1], pt('s1a'), pt('s1b'), 1)), ('slot 2', L.new(S, tl[2], pt('s2a'), pt('s2b'), 2))]
    for t in tl[:1]:
        sts.append(('tool statement', t, {'diameter': 'A', 'number': 'K', 'rpm': 'K'}, None))
    f = L.new(E, L.list([o for _, o, _, _ in sts]), tools, L.list([o for _, o in hits]), settings(L, units), 'f')

    def rd():
        r = {}
        for (n, o, attrs, unit) in sts:
            for a, v in stmt_read(L, o, attrs, unit).items():
                r['statement %s.%s' % (n, a)] = v
        for i, t in enumerate(tl):
            r['tool %d.diameter' % i] = ('A', L.get(t, 'diameter'))
            r['tool %d.units' % i] = ('UNIT', L.get(L.get(t, 'settings'), 'units'))
            r['tool %d.number' % i] = ('K', L.get(t, 'number'))
        for n, h in hits:
            for a in (('position',) if n.startswith('hit') else ('start', 'end')):
                r['%s.%s' % (n, a)] = ('P', L.get(h, a))
        r['file.units'] = ('UNIT', L.get(f, 'units'))
        for a, v in file_settings(L, f).items():
            r['settings.' + a] = ('UNIT' if a == 'units' else 'K', v)
        for p, (n, h) in zip(L.items(L.get(f, 'primitives')), hits):
            for a in (('position',) if n.startswith('hit') else ('start', 'end')):
                r['drawn %s.%s' % (n, a)] = ('P', L.get(p, a))
            r['drawn %s.diameter' % n] = ('A', L.get(p, 'diameter'))
            r['drawn %s.units' % n] = ('UNIT', L.get(p, 'units'))
        return r
    return f, rd


FILES = (('GerberFile', G, gerber_file), ('ExcellonFile', E, excellon_file))
LEAN = [('GerberFile/' + p.replace(' ', '+'), G, (lambda L, u, p=p: gerber_file(L, u, p)))
        for p in ('statements', 'shapes', 'lines', 'apertures', 'statements apertures', 'lines apertures', 'shapes apertures', 'statements lines', 'none')]
LEAN += [('ExcellonFile/' + p.replace(' ', '+'), E, (lambda L, u, p=p: excellon_file(L, u, p))) for p in ('statements', 'tools', 'statements tools', 'none')]
ABS = {'CoordStmt': ('x', 'y'), 'CoordinateStmt': ('x', 'y'), 'EndOfProgramStmt': ('x', 'y'), 'SlotStmt': ('x_start', 'y_start', 'x_end', 'y_end')}


def convert_want(k, v, f, to, name):
    if k in ('L', 'P', 'A'):
        return scaled(v, f)
    if k == 'U' or k == 'UNIT':
        return to
    if k == 'UC':
        return {'inch': 'G70', 'metric': 'G71'}[to]
    if isinstance(k, tuple):
        return tuple(scaled(x, f) if kk == 'L' else x for kk, x in zip(k[1], v))
    return v


def run(O, thorough):
    L = Lab(['gerber.rs274x', 'gerber.excellon', 'gerber.am_statements'])
    for name, spec, build in list(FILES) + LEAN:
        for frm, meth, to, f in (('inch', 'to_metric', 'metric', 25.4), ('metric', 'to_inch', 'inch', 1 / 25.4),
                                 ('inch', 'to_inch', 'inch', 1.0), ('metric', 'to_metric', 'metric', 1.0)):
            where = L.where(spec, meth)
            L.fresh()
            box = {}

            def go():
                o, rd = build(L, frm)
                box['b'] = rd()
                L.call(o, meth)
                box['a'] = rd()
                L.call(o, meth)
                box['aa'] = rd()
                L.call(o, 'to_inch' if meth == 'to_metric' else 'to_metric')
                box['back'] = rd()
            key = '%s:%s->%s' % (name, frm, to)
            oc = L.run(go)
            O.note(L)
            if not O.outcome(key, oc, where, '%s.%s()' % (name, meth)):
                continue
            other = 'inch' if meth == 'to_metric' else 'metric'
            for a, (k, v) in box['b'].items():
                if a.startswith('statement SFParamStmt'):
                    continue        # C01 reports the scale factors
                good = True
                for stage, ff, tt, what in (('a', f, to, meth + '()'), ('aa', f, to, meth + '() twice'),
                                            ('back', {True: 1.0, False: 1 / 25.4 if to == 'metric' else 25.4}[frm != to], other, meth + '() and back')):
                    if not good:
                        break
                    kk = '%s:%s%s' % (key, a, '' if stage == 'a' else ':' + stage)
                    good = O.equal(kk, box[stage].get(a, (0, MISSING))[1], convert_want(k, v, ff, tt, a), where, '%s of the %s after %s from %s' % (a, name, what, frm))
    offsets(O, L)
    statements(O, L)


def offsets(O, L):
    dx, dy = sym('dx'), sym('dy')
    for name, spec, build in list(FILES) + LEAN:
        where = L.where(spec, 'offset')
        for mode, args, kw, (ox, oy) in (('positional', (dx, dy), {}, (dx, dy)), ('keyword', (), {'y_offset': dy, 'x_offset': dx}, (dx, dy)),
                                         ('x only', (dx,), {}, (dx, 0)), ('twice', (dx, dy), {}, (dx * 2, dy * 2))):
            L.fresh()
            box = {}

            def go():
                o, rd = build(L, 'inch')
                box['b'] = rd()
                L.call(o, 'offset', *args, **kw)
                if mode == 'twice':
                    L.call(o, 'offset', *args, **kw)
                box['a'] = rd()
            key = '%s:offset:%s' % (name, mode)
            oc = L.run(go)
            O.note(L)
            if not O.outcome(key, oc, where, '%s.offset()' % name):
                continue
            for a, (k, v) in box['b'].items():
                if 'OFParamStmt' in a or 'SFParamStmt' in a:
                    continue
                want = v
                if a.startswith('statement '):
                    cls, attr = a[len('statement '):].split('/')[0].split('.')[0], a.split('.')[-1]
                    if attr in ABS.get(cls, ()) and v is not None:
                        want = v + (ox if attr.startswith('x') else oy)
                    elif cls == 'CoordStmt' and attr in ('i', 'j'):
                        continue    # see statements()
                elif k == 'P' and isinstance(v, tuple) and not ('.aperture.' in a or a.startswith('aperture')):
                    want = moved('P', v, ox, oy)
                O.equal('%s:%s' % (key, a), box['a'].get(a, (0, MISSING))[1], want, where, '%s of the %s after offset(%s)' % (a, name, mode))


def statements(O, L):
    """Arc center offsets are relative: they do not move."""
    where = L.where(c01.G + 'CoordStmt', 'offset')
    dx, dy = sym('dx'), sym('dy')
    for attr in ('i', 'j'):
        L.fresh()

        def go():
            o = L.new(c01.G + 'CoordStmt', 'G02', N('x'), N('y'), N('i'), N('j'), 'D01', None)
            L.call(o, 'offset', dx, dy)
            return L.get(o, attr)
        oc = L.run(go)
        if O.outcome('CoordStmt.offset:' + attr, oc, where, 'CoordStmt.offset()'):
            O.equal('CoordStmt.offset:' + attr, oc.value, N(attr), where, 'relative arc center %s after offset()' % attr)
