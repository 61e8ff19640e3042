"""C11 a written Gerber file reads back as the same statements."""
from sa.lab import *
from sa.par import parallel
from .strs import *
from .c12 import coord
from .c09 import bruijn, hash_
from . import c10

RULE = ('Abstract interpretation of GerberFile.write() on files read from programs that contain every pair of blocks of an alphabet of all kinds, and on '
        'files built with the statement factories, with and without explicit settings and after conversion or translation, followed by the reader on '
        'the written text: the statements read back must equal the written ones, field by field and in order, and decode with the format they were '
        'written in. Writers are also checked alone, with labelled numbers of unknown value.')
ASSUMPTIONS = ['writing and reading of coordinate numbers is C14: write_gerber_value and parse_gerber_value are an uninterpreted writer and its inverse for the same format here']

S = 'gerber.gerber_statements:'
FIELDS = {'FSParamStmt': ('zero_suppression', 'notation', 'format'), 'MOParamStmt': ('mode',), 'LPParamStmt': ('lp',), 'ADParamStmt': ('d', 'shape', 'modifiers'),
          'AMParamStmt': ('name', 'primitives'), 'ASParamStmt': ('mode',), 'INParamStmt': ('name',), 'LNParamStmt': ('name',), 'IPParamStmt': ('ip',), 'IRParamStmt': ('angle',),
          'MIParamStmt': ('a', 'b'), 'OFParamStmt': ('a', 'b'), 'SFParamStmt': ('a', 'b'), 'DeprecatedStmt': ('line',), 'CoordStmt': ('function', 'x', 'y', 'i', 'j', 'op'),
          'ApertureStmt': ('d', 'deprecated'), 'CommentStmt': ('comment',), 'EofStmt': (), 'QuadrantModeStmt': ('mode',), 'RegionModeStmt': ('mode',), 'UnknownStmt': ('line',)}


class Codec(object):
    """Uninterpreted writer of coordinate numbers and its inverse."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.texts, self.byval = {}, {}

    def args(self, args, kw):
        a = dict(zip(('value', 'format', 'zero_suppression'), args))
        a.update(kw)
        return a['value'], a.get('format', (2, 5)), a.get('zero_suppression', 'trailing')

    def write(self, I, args, kw):
        v, fmt, zs = self.args(args, kw)
        k = (vkey(norm_(v)), vkey(fmt), zs)
        if k not in self.byval:
            t = '%d' % (10000001 + len(self.texts))
            if len(self.texts) % 3 == 1:
                t = '-' + t
            self.byval[k] = t
            self.texts[t] = (norm_(v), vkey(fmt), zs)
        return self.byval[k]

    def read(self, I, args, kw):
        t, fmt, zs = self.args(args, kw)
        e = self.texts.get(t)
        if e is None:
            return coord(t, fmt, zs)
        if e[1:] == (vkey(fmt), zs):
            return e[0]
        return app('misread', t, vkey(fmt), zs)


def norm_(v):
    return float(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v


C = Codec()
STUBS = {'gerber.utils:parse_gerber_value': C.read, 'gerber.utils:write_gerber_value': C.write}


def alphabet():
    out = []
    for t, p, want, _ in c10.alphabet():
        if t.startswith('AM'):
            continue
        out.append((t, p))
    out += [('AMFIX*0 note*1,1,0.5,0,-0.25*20,1,0.1,0,0,1,1.5,30*21,0,0.5,0.25,0,0,45*22,1,0.5,0.25,0.125,0.0625,0*'
             '*4,1,3,0.1,0.2,0.3,0.4,0.5,0.6,0.1,0.2,15*5,1,6,0.5,0.25,1,10*7,0.1,0.2,0.5,0.25,0.0625,0*ADD30FIX*', 1), ('AMFIY*1,0,1.5,0.125,2*6,0.1,0.2,1,0.0625,0.03125,2,0.0078125,1.25,0*ADD31FIY*', 1),
            ('ADD32C,0.123456', 0), ('ADD33R,123.456X0.00012', 0), ('OFA0.12345B-12.5*', 1), ('OFA100B0.001*', 1), ('SFA0.25B12.5*', 1), ('X-0Y0D02*', 0), ('TF.FileFunction,Copper,L1,Top*', 1),
            ('LNx*', 1), ('INa:b/c*', 1), ('MIA0B1*', 1), ('IR-90*', 1), ('IR0*', 1),
            ('SFA0.5B0.5*', 1), ('SFA1B3*', 1), ('OFA0B0*', 1), ('OFA0B3*', 1), ('OFA2B2*', 1), ('MIA1B1*', 1), ('MIA0B0*', 1), ('IR360*', 1)]
    fixed = []
    for t, p in out:
        if t.startswith('ADD3') and not p:
            t, p = t + '*', 1
        if t.startswith('AMFI'):
            m, a = t.rsplit('ADD', 1)
            fixed.append(('%' + m.replace('**', '*') + '%\n%ADD' + a + '%', 0))
        else:
            fixed.append((t, p))
    return fixed


HEAD = [('FSLAX24Y24*', 1), ('MOIN*', 1)] + [('%AM' + n + '*1,1,0.5,0,0*%\n%ADD4' + str(i) + n + '*%', 0) for i, n in enumerate(('DOT', 'CUSTOM', 'RECT', 'A', 'Oval_1.2-3+4'))] + [
    ('ADD10C,0.01*', 1), ('ADD11R,0.02X0.03*', 1), ('ADD12C,0.01*', 1), ('D10*', 0)]
VARIANTS = (('as is', None, None), ('as is', (3, 5), 'trailing'), ('to_metric', None, None), ('to_inch', (4, 4), 'leading'), ('offset', (2, 6), 'trailing'))


def value(L, v, deep=0):
    if isinstance(v, Ref):
        h = L.I.st.get(v)
        if h.kind == 'list':
            return tuple(value(L, x) for x in h.items)
        if h.kind == 'obj':
            return (h.cls.name,) + tuple((k, value(L, x)) for k, x in sorted(h.attrs.items()))
    if isinstance(v, tuple):
        return tuple(value(L, x) for x in v)
    return v


def facts(L, f):
    out = []
    for s in L.items(L.get(f, 'statements')):
        c = L.cls_of(s)
        out.append((c, [(a, value(L, L.get(s, a))) for a in FIELDS.get(c, ())]))
    return out


def write(L, f, settings):
    del L.I.st.events[:]
    L.call(f, 'write', 'out.gbr', *([settings] if settings is not None else []))
    hs = [e[1] for e in L.I.st.events if e[0] == 'open']
    assert len(hs) == 1 and hs[0][0] == 'out.gbr', 'files opened: %s' % (hs,)
    return ''.join(L.items(L.get(hs[0][2], 'out')))


def settings(L, fmt, zs, notation='absolute', units='inch'):
    return L.new('gerber.cam:FileSettings', notation=notation, units=units, zero_suppression=zs, format=fmt)


def openable(oc):
    """The output file can be opened."""
    oc.maybe = [m for m in oc.maybe or [] if m[0] != 'IOError']
    return oc


def run(O, thorough):
    L = Lab(['gerber.rs274x', 'gerber.cam'], stubs=STUBS)
    alpha = alphabet()
    seq = bruijn(len(alpha), 2)
    size = 60
    jobs = [(v, [seq[(i + k) % len(seq)] for k in range(size + 1)]) for v in VARIANTS for i in range(0, len(seq), size)]
    if not thorough:
        jobs = [j for n, j in enumerate(jobs) if j[0] in VARIANTS[:1] or n % 4 == 0]

    def one(job):
        var, ks = job
        blocks = [alpha[k] for k in ks]
        key = '%s %s:%s' % (var[0], var[1], ' '.join(b[0] for b in blocks)[:40].replace('\n', ' '))
        key += '..%08x' % hash_(' '.join(b[0] for b in blocks))

        def build():
            f = L.I.call(L.obj_from('gerber.rs274x:loads'), [c10.lay(HEAD + blocks, 'lines')], {})
            if var[0] == 'offset':
                L.call(f, 'offset', 0.25, -1.5)
            elif var[0] != 'as is':
                L.call(f, var[0])
            return f
        roundtrip(O, L, key, build, var)
    parallel(O, jobs, one)
    # each block alone, so that a violation names it

    def alone(job):
        b, var = job

        def build():
            f = L.I.call(L.obj_from('gerber.rs274x:loads'), [c10.lay(HEAD + [b], 'lines')], {})
            if var[0] == 'offset':
                L.call(f, 'offset', 0.25, -1.5)
            elif var[0] != 'as is':
                L.call(f, var[0])
            return f
        roundtrip(O, L, '%s %s:%s' % (var[0], var[1], b[0][:60]), build, var)
    parallel(O, [(b, var) for b in alpha for var in VARIANTS], alone)
    factories(O, L)
    numbers(O, L)
    built(O, L)
    macros(O, L)


def roundtrip(O, L, key, build, var, note=''):
    L.fresh()
    C.reset()
    box = {}
    where = L.where('gerber.rs274x:GerberFile', 'write')

    def go():
        f = build()
        st = L.get(f, 'settings')
        box['set'] = (L.get(st, 'zero_suppression'), L.get(st, 'notation'), value(L, L.get(st, 'format')))
        box['units'] = L.get(f, 'units')
        box['a'] = facts(L, f)
        s = None
        if var[1]:
            s = settings(L, var[1], var[2])
            box['set'] = (var[2], 'absolute', var[1])
        box['t'] = write(L, f, s)
        g = L.I.call(L.obj_from('gerber.rs274x:loads'), [box['t']], {})
        box['b'] = facts(L, g)
        box['units2'] = L.get(g, 'units')
        box['tags'] = tuple(L.get(x, 'units') for x in L.items(L.get(g, 'statements')))
        box['t2'] = write(L, g, s)
    oc = openable(L.run(go))
    O.note(L)
    L.I.call_log.clear()
    if not O.outcome(key, oc, where, 'writing a file and reading it back'):
        return
    for i in range(max(len(box['a']), len(box['b']))):
        a = box['a'][i] if i < len(box['a']) else ('nothing', [])
        b = box['b'][i] if i < len(box['b']) else ('nothing', [])
        near = ', '.join(x[0] for x in box['a'][max(0, i - 1):i + 2])
        if a[0] != b[0]:
            O.fail(key, L.where(S + a[0], 'to_gerber') if a[0] != 'nothing' else where, '%s %s (among %s) is read back as %s %s' % (a[0], show_(a[1]), near, b[0], show_(b[1])))
            return
        want = dict(a[1])
        if a[0] == 'FSParamStmt':
            want = dict(zip(('zero_suppression', 'notation', 'format'), box['set']))
        for f, v in b[1]:
            if f in ('modifiers', 'primitives'):     # written with six digits
                v, want[f] = six(v), six(want[f])
            elif a[0] in ('OFParamStmt', 'SFParamStmt'):     # written with five decimals
                if isinstance(v, float) and abs(v - want[f]) < 1.0001e-5:
                    v = want[f]
            if O.equal('%s:%d.%s' % (key, i, f), v, want[f], L.where(S + a[0], 'to_gerber'), '%s of %s %s written and read back' % (f, a[0], show_(a[1]))) is False:
                return
    O.equal(key + ':units', box['units2'], box['units'], where, 'units of the file read back')
    O.equal(key + ':tags', set(box['tags']) == {box['units']}, True, where, 'every statement read back is tagged with the units %s of the file' % box['units'])
    if not var[0].startswith('to_'):     # rounded numbers may lose trailing zeros
        O.equal(key + ':again', box['t2'] == box['t'], True, where, 'writing what was read back gives the same text')


def six(v):
    return tuple(six(x) for x in v) if isinstance(v, tuple) else float('%.6g' % v) if isinstance(v, (int, float)) else v


def show_(fs):
    return '(' + ', '.join('%s=%s' % (a, show(v)) for a, v in fs if v is not None)[:200] + ')'


def factories(O, L):
    """Statements built by a program (as the Gerber renderer does)."""
    x, y, i, j = sym('x'), sym('y'), sym('i'), sym('j')
    CS = S + 'CoordStmt.'

    def cases():
        for zs in ('leading', 'trailing', 'none'):
            for fmt in ((2, 4), (3, 5)):
                yield 'FS %s %s' % (zs, fmt), lambda zs=zs, fmt=fmt: L.new(S + 'FSParamStmt', 'FS', zs, 'absolute', fmt), None
        for u in ('inch', 'metric'):
            yield 'MO %s' % u, lambda u=u: L.new(S + 'MOParamStmt.from_units', u), {'mode': u}
        for lp in ('dark', 'clear'):
            yield 'LP %s' % lp, lambda lp=lp: L.new(S + 'LPParamStmt', 'LP', lp), {'lp': lp}
        for fn in ('G01', 'G02', 'G03', None):
            yield 'move %s' % fn, lambda fn=fn: L.new(CS + 'move', fn, (x, y)), dict(function=fn, x=x, y=y, i=None, j=None, op='D02')
            yield 'line %s' % fn, lambda fn=fn: L.new(CS + 'line', fn, (x, y)), dict(function=fn, x=x, y=y, i=None, j=None, op='D01')
            yield 'arc %s' % fn, lambda fn=fn: L.new(CS + 'arc', fn, (x, y), (i, j)), dict(function=fn, x=x, y=y, i=i, j=j, op='D01')
            yield 'stop %s' % fn, lambda fn=fn: L.new(CS + 'move', fn, None), dict(function=fn, x=None, y=None, i=None, j=None, op='D02')
            if fn:
                yield 'mode %s' % fn, lambda fn=fn: L.new(CS + 'mode', fn), dict(function=fn, x=None, y=None, i=None, j=None, op=None)
        yield 'flash', lambda: L.new(CS + 'flash', (x, y)), dict(function=None, x=x, y=y, i=None, j=None, op='D03')
        yield 'flash here', lambda: L.new(CS + 'flash', None), dict(function=None, x=None, y=None, i=None, j=None, op='D03')
        for zero in ((0, 0), (0.0, 1.5), (2, 0)):
            yield 'move %s' % (zero,), lambda zero=zero: L.new(CS + 'move', None, zero), dict(function=None, x=float(zero[0]), y=float(zero[1]), i=None, j=None, op='D02')
            yield 'arc %s' % (zero,), lambda zero=zero: L.new(CS + 'arc', 'G02', (x, y), zero), dict(function='G02', x=x, y=y, i=float(zero[0]), j=float(zero[1]), op='D01')
        for n, m in (('single', 'single-quadrant'), ('multi', 'multi-quadrant')):
            yield n, lambda n=n: L.new(S + 'QuadrantModeStmt.' + n), {'mode': m}
        for n in ('on', 'off'):
            yield 'region ' + n, lambda n=n: L.new(S + 'RegionModeStmt.' + n), {'mode': n}
        for d in (10, 11, 123):
            yield 'D%d' % d, lambda d=d: L.new(S + 'ApertureStmt', d), {'d': d, 'deprecated': False}
        yield 'comment', lambda: L.new(S + 'CommentStmt', ' hello'), {'comment': ' hello'}
        yield 'end', lambda: L.new(S + 'EofStmt'), {}
        A = S + 'ADParamStmt.'
        holes = (('none', {}, ()), ('round', dict(hole_diameter=0.125), (0.125,)), ('rectangular', dict(hole_width=0.25, hole_height=0.0625), (0.25, 0.0625)),
                 ('square', dict(hole_width=0.25, hole_height=0.25), (0.25, 0.25)), ('filling', dict(hole_width=0.5, hole_height=0.75), (0.5, 0.75)),
                 ('zero', dict(hole_diameter=0, hole_width=0, hole_height=0), ()))
        for n, kw, hole in holes:
            yield 'circle ' + n, lambda kw=kw: L.new(A + 'circle', 20, 0.5, **kw), dict(d=20, shape='C', modifiers=((0.5,) + hole,))
            yield 'rect ' + n, lambda kw=kw: L.new(A + 'rect', 21, 0.5, 0.75, **kw), dict(d=21, shape='R', modifiers=((0.5, 0.75) + hole,))
            yield 'obround ' + n, lambda kw=kw: L.new(A + 'obround', 22, 0.5, 0.75, **kw), dict(d=22, shape='O', modifiers=((0.5, 0.75) + hole,))
            yield 'polygon ' + n, lambda kw=kw: L.new(A + 'polygon', 23, 0.5, 6, 15.5, **kw), dict(d=23, shape='P', modifiers=((0.5, 6.0, 15.5) + hole,))
        yield 'macro', lambda: L.new(A + 'macro', 24, 'M1'), dict(d=24, shape='M1', modifiers=((),))
    where = L.where('gerber.rs274x:GerberFile', 'write')
    every = list(cases())
    for units in ('inch', 'metric'):
        for fmt, zs in (((2, 4), 'leading'), ((3, 6), 'trailing')):
            for name, mk, want in every:
                key = 'built:%s:%s:%s %s' % (name, units, fmt, zs)
                L.fresh()
                C.reset()
                box = {}

                def go():
                    st = settings(L, fmt, zs, units=units)
                    box['fs'] = dict(zero_suppression=zs, notation='absolute', format=fmt)
                    ss = [L.new(S + 'FSParamStmt.from_settings', st), L.new(S + 'MOParamStmt.from_units', units)]
                    if name == 'macro':
                        am = L.new(S + 'AMParamStmt', 'AM', 'M1', '1,1,0.5,0,0*')
                        L.call(am, 'build')
                        ss.append(am)
                    if name.split()[0] in ('line', 'arc', 'flash', 'move'):
                        ss += [L.new(S + 'ADParamStmt.circle', 10, 0.5), L.new(S + 'ApertureStmt', 10)]
                    ss.append(mk())
                    f = L.new('gerber.rs274x:GerberFile', L.list(ss), st, L.list([]), L.list([]))
                    g = L.I.call(L.obj_from('gerber.rs274x:loads'), [write(L, f, None)], {})
                    box['b'] = facts(L, g)
                    box['c'] = L.cls_of(ss[-1])
                    box['u'] = L.get(g, 'units')
                    box['n'] = len(ss)
                oc = openable(L.run(go))
                O.note(L)
                if not O.outcome(key, oc, where, 'writing a built %s statement' % name):
                    continue
                if not O.equal(key + ':kinds', tuple(c for c, _ in box['b'])[-1:] + (len(box['b']),), (box['c'], box['n']), where, 'statements read back from a built %s' % name):
                    continue
                O.equal(key + ':units', box['u'], units if not name.startswith('MO') else name[3:], where, 'units read back')
                w = want if want is not None else box['fs']
                for a, v in box['b'][-1][1]:
                    O.equal('%s:%s' % (key, a), v, w[a], L.where(S + box['c'], 'to_gerber'), '%s of a built %s written and read back' % (a, name))
                fs = dict(box['b'][0][1])
                O.equal(key + ':fs', tuple(fs[a] for a in ('zero_suppression', 'notation', 'format')), (zs, 'absolute', fmt), L.where(S + 'FSParamStmt', 'from_settings'), 'format statement made from settings')


def numbers(O, L):
    """Aperture modifiers of any value are written in place, with six digits."""
    where = L.where(S + 'ADParamStmt', 'to_gerber')
    for shape, n in (('C', 1), ('C', 2), ('C', 3), ('R', 2), ('R', 3), ('R', 4), ('O', 2), ('O', 4), ('P', 2), ('P', 3), ('P', 5), ('MAC', 1), ('MAC', 6)):
        key = 'modifiers:%s%d' % (shape, n)
        L.fresh()
        vals = tuple(sym('m%d' % k) for k in range(n))
        oc = L.run(lambda: L.call(L.new(S + 'ADParamStmt', 'AD', 17, shape, (vals,)), 'to_gerber'))
        O.note(L)
        if not O.outcome(key, oc, where, 'writing an aperture definition'):
            continue
        ps = pieces(oc.value)
        pre, post = '%%ADD17%s,' % shape, '*%'
        if ps is None or not isinstance(ps[0], str) or not ps[0].startswith(pre) or not isinstance(ps[-1], str) or not ps[-1].endswith(post):
            O.fail(key, where, 'aperture definition is written as %s' % show(oc.value))
            continue
        ps[0], ps[-1] = ps[0][len(pre):], ps[-1][:-len(post)]
        fs = fields(text(*[p for p in ps if p != '']), 'X')
        if len(fs) != n:
            O.fail(key, where, 'aperture definition of %d modifiers is written as %s' % (n, show(oc.value)))
            continue
        for k, f in enumerate(fs):
            v = number(f)
            if v is None:
                O.undecided('%s:%d' % (key, k), 'modifier written as %s' % show(f))
            else:
                O.equal('%s:%d' % (key, k), v, vals[k], where, 'modifier %d of an aperture definition' % k)
                d = digits(f)
                if d is not None and d < 6:
                    O.fail('%s:%d:digits' % (key, k), where, 'modifier %d of an aperture definition is written with %d digits' % (k, d))


def built(O, L):
    """Aperture definitions of the factories, all sizes."""
    A = S + 'ADParamStmt.'
    a, b, r, h, k = sym('a', '+'), sym('b', '+'), sym('r'), sym('h', '+'), sym('k', '+')
    for shape, fn, args in (('C', 'circle', (a,)), ('R', 'rect', (a, b)), ('O', 'obround', (a, b)), ('P', 'polygon', (a, 6, r))):
        for n, kw, hole in (('none', {}, ()), ('round', dict(hole_diameter=h), (h,)), ('rectangular', dict(hole_width=h, hole_height=k), (h, k)), ('square', dict(hole_width=h, hole_height=h), (h, h))):
            key = 'factory:%s:%s' % (fn, n)
            where = L.where(S + 'ADParamStmt', fn)
            L.fresh()

            def go():
                o = L.new(A + fn, 17, *args, **kw)
                return L.get(o, 'd'), L.get(o, 'shape'), value(L, L.get(o, 'modifiers'))
            oc = L.run(go)
            O.note(L)
            if O.outcome(key, oc, where, 'ADParamStmt.%s' % fn):
                O.equal(key, oc.value, (17, shape, (args + hole,)), where, 'aperture definition of %s with hole %s' % (fn, n))


def macros(O, L):
    for key, txt in (('variable', '%AMV*1,1,$1,0,0*%\n%ADD20V,0.5*%\n%ADD21V,0.75*%\nD20*\nX1Y1D03*\nD21*\nX2Y2D03*\n'), ('unused', '%AMV*1,1,0.5,0,0*%\nX1Y1D02*\n'),
                     ('one use', '%AMV*1,1,$1,0,0*%\n%ADD20V,0.5*%\nD20*\nX1Y1D03*\n'), ('two uses', '%AMV*1,1,0.5,0,0*20,1,0.1,0,0,1,0,0*%\n%ADD20V*%\n%ADD21V*%\nD20*\nX1Y1D03*\nD21*\nX2Y2D03*\n')):
        for var in VARIANTS[:3]:
            L.fresh()
            C.reset()
            box = {}

            def shapes(f):
                out = []
                for p in L.items(L.get(f, 'primitives')):
                    if L.cls_of(p) == 'AMGroup':
                        out.append(tuple((L.cls_of(q), L.get(q, 'bounding_box')) for q in L.items(L.get(p, 'primitives'))))
                return tuple(out), L.cls_of(L.items(L.get(f, 'statements'))[2])

            def go():
                f = L.I.call(L.obj_from('gerber.rs274x:loads'), ['%FSLAX24Y24*%\n%MOIN*%\n' + txt + 'M02*\n'], {})
                if var[0] != 'as is':
                    L.call(f, var[0])
                box['a'] = shapes(f)
                g = L.I.call(L.obj_from('gerber.rs274x:loads'), [write(L, f, settings(L, var[1], var[2]) if var[1] else None)], {})
                box['b'] = shapes(g)
            oc = openable(L.run(go))
            O.note(L)
            k = 'macro:%s:%s %s' % (key, var[0], var[1])
            where = L.where(S + 'AMParamStmt', 'to_gerber')
            if O.outcome(k, oc, where, 'writing a file with a macro (%s)' % key):
                O.equal(k, box['b'], box['a'], where, 'shapes of the flashes of a macro (%s) written and read back' % key)
