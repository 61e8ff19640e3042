"""C09 interpretation of Gerber programs."""
import itertools
import math

from sa.lab import *
from sa.oblig import norm
from sa.par import parallel
from .strs import *
from .c12 import STUBS, coord

RULE = ('Abstract interpretation of the Gerber reader on programs that contain every pair (thorough: triple) of consecutive blocks from an alphabet of all '
        'block kinds, from several headers, with coordinates of unknown value. The primitives drawn, with start, end, center, direction, aperture, '
        'polarity, units and contour, must be those of an independent transition table; each coordinate must be decoded with the format and zero '
        'suppression in force. Aperture definitions are read with digits of unknown value; single-quadrant arcs are enumerated over all directions '
        'at an unknown position.')
ASSUMPTIONS = ['coordinate decoding itself is C14: parse_gerber_value is an uninterpreted function of text, format and suppression here',
               'blocks the format forbids inside a region (flashes, polarity changes) are not generated there', 'a program is a composition of single-block transitions']
P = 'gerber.primitives:'


class Machine(object):
    def __init__(self, units, fmt, zs):
        self.units, self.fmt, self.zs = units, fmt, zs
        self.pos = (0, 0)
        self.op = 'D02'
        self.ap = None
        self.aps = {}
        self.interp = 'linear'
        self.dirn = 'clockwise'
        self.quad = 'multi-quadrant'
        self.pol = 'dark'
        self.region = False
        self.contour = []
        self.out = []

    def num(self, t):
        return coord(t, self.fmt, self.zs)

    def close(self):
        if self.contour:
            self.out.append(('Region', tuple(self.contour), self.pol, self.units))
        self.contour = []

    def coords(self, fn, x, y, i, j, op):
        if fn in ('G01', 'G1'):
            self.interp = 'linear'
        elif fn:
            self.interp = 'arc'
            self.dirn = 'clockwise' if fn in ('G02', 'G2') else 'counterclockwise'
        if not (x or y or i or j or op):
            return
        if op:
            self.op = 'D0' + op[-1]
        end = (self.pos[0] if x is None else self.num(x), self.pos[1] if y is None else self.num(y))
        if self.op == 'D01':
            if self.interp == 'linear':
                what = ('Line', self.pos, end)
            else:
                c = tuple(p + (self.num(o) if o else 0) for p, o in zip(self.pos, (i, j)))
                what = ('Arc', self.pos, end, c, self.dirn, self.quad)
            if self.region:
                self.contour.append(what + (self.pol, self.units))
                self.interp = 'linear'
            else:
                self.out.append(what + (self.aps[self.ap], self.pol, self.units))
        elif self.op == 'D02':
            if self.region:
                self.close()
        else:
            self.out.append(('Flash', end, self.aps[self.ap], self.pol, self.units))
        self.pos = end


def alphabet():
    """[(name, make(n) -> (text, transition), wants)]: wants names what must
    hold before the block is generated."""
    out = []

    def add(name, make):
        out.append((name, make))

    def cb(name, fn, spec, op):
        def make(n):
            t = dict((a, '%s%d%d' % ('-' if a == 'y' and n % 3 == 0 else '', n + 1, k)) for k, a in enumerate(spec))
            txt = fn + ''.join(a.upper() + t[a] for a in spec) + op + '*'
            return txt, lambda m: m.coords(fn or None, t.get('x'), t.get('y'), t.get('i'), t.get('j'), op or None)
        add(name, make)
    for spec in ('xy', 'x', 'y', ''):
        cb('move-' + spec, '', spec, 'D02')
    cb('move short', '', 'xy', 'D2')
    for spec in ('xy', 'x', 'y'):
        cb('draw-' + spec, '', spec, 'D01')
    cb('draw short', 'G1', 'xy', 'D1')
    cb('G01 draw', 'G01', 'xy', 'D01')
    cb('G01 move', 'G01', 'xy', 'D02')
    cb('no op xy', '', 'xy', '')
    cb('no op x', '', 'x', '')
    cb('G01 no op', 'G01', 'y', '')
    for g in ('G01', 'G02', 'G03', 'G2'):
        cb(g, g, '', '')
    cb('cw arc', 'G02', 'xyij', 'D01')
    cb('ccw arc', 'G03', 'xyij', 'D01')
    cb('ccw arc x i', 'G3', 'xi', 'D01')
    cb('cw arc y j', 'G02', 'yj', 'D1')
    cb('modal arc', '', 'xyij', 'D01')
    cb('arc no op', 'G03', 'xyij', '')
    cb('flash xy', '', 'xy', 'D03')
    cb('flash', '', '', 'D03')
    cb('flash y', '', 'y', 'D3')

    def simple(txt, go=None, name=None):
        add(name or txt, lambda n: (txt, go or (lambda m: None)))

    def setter(**k):
        def go(m):
            for a, v in k.items():
                setattr(m, a, v)
        return go

    def g37(m):
        if m.region:
            m.close()
        m.region = False
    simple('G36*', setter(region=True))
    simple('G37*', g37)
    simple('G74*', setter(quad='single-quadrant'))
    simple('G75*', setter(quad='multi-quadrant'))
    simple('%LPC*%', setter(pol='clear'))
    simple('%LPD*%', setter(pol='dark'))
    for d in (10, 11, 12, 13):
        simple('D%d*' % d, setter(ap=d))
    simple('G54D11*', setter(ap=11))
    simple('G55D12*', setter(ap=12))
    simple('%FSTAX33Y33*%', setter(fmt=(3, 3), zs='trailing'))
    simple('%FSLAX25Y25*%', setter(fmt=(2, 5), zs='leading'))
    simple('%ADD10C,0.07*%', lambda m: m.aps.update({10: ('Circle', 0.07, 0, 0, 0)}))
    simple('%ADD10R,0.04X0.03*%', lambda m: m.aps.update({10: ('Rectangle', 0.04, 0.03, 0, 0, 0)}))
    for t in ('G04 a note X1Y1D01*', 'G4*', 'G99*', 'G90*', '%IPPOS*%', '%LNname*%', '%INname*%', '*', '%MIA0B1*%', '%OFA1.0*%'):
        simple(t)
    return out


def guard(m, name, alpha):
    """Blocks inserted before a block the format forbids in this state."""
    pre = []
    op = {'flash xy': 'D03', 'flash': 'D03', 'flash y': 'D03'}.get(name)
    if name in ('no op xy', 'no op x', 'G01 no op', 'arc no op'):
        op = m.op
    if m.region and (op == 'D03' or name.startswith('%LP') or name.startswith('%ADD')):
        pre.append('G37*')
    if m.quad == 'single-quadrant' and 'G' not in name.split(' ')[0][:1] and name not in ('G01 draw',):
        if name in ('cw arc', 'ccw arc', 'ccw arc x i', 'cw arc y j', 'modal arc', 'arc no op') or m.interp == 'arc' and name.split('-')[0].split(' ')[0] in ('draw', 'no'):
            pre.append('G75*')
    return pre


HEADERS = [('inch', (2, 4), 'leading', '%FSLAX24Y24*%\n%MOIN*%\n'), ('metric', (3, 5), 'trailing', '%FSTAX35Y35*%\n%MOMM*%\n'),
           ('inch', (2, 3), 'none', '%FSDAX23Y23*%\n%MOIN*%\n'), ('metric', (4, 6), 'leading', '%FSLAX46Y46*%\nG71*\n')]
APS = ('%AMDOT*1,1,0.5,0.1,0.2*1,0,0.25,0.1,0.3*%\n%ADD10C,0.01*%\n%ADD11R,0.02X0.03X0.005*%\n%ADD12P,0.04X6X15*%\n%ADD13DOT*%\n')
APD = {10: ('Circle', 0.01, 0, 0, 0), 11: ('Rectangle', 0.02, 0.03, 0.005, 0, 0), 12: ('Polygon', 6, 0.02, 15, 0, 0, 0),
       13: ('AMGroup', (0.1, 0.2, 0.5, 'dark'), (0.1, 0.3, 0.25, 'clear'))}


def holes(L, p):
    return tuple(L.get(p, a) for a in ('hole_diameter', 'hole_width', 'hole_height'))


def describe(L, p, at=(0, 0)):
    c = L.cls_of(p)
    g = lambda a: L.get(p, a)
    if c == 'Circle':
        return ('Circle', g('diameter')) + holes(L, p)
    if c in ('Rectangle', 'Obround'):
        return (c, g('width'), g('height')) + holes(L, p)
    if c == 'Polygon':
        return (c, g('sides'), g('radius'), g('rotation')) + holes(L, p)
    if c == 'AMGroup':
        return (c,) + tuple((L.get(q, 'position')[0] - at[0], L.get(q, 'position')[1] - at[1], L.get(q, 'diameter'), L.get(q, 'level_polarity')) for q in L.items(g('primitives')))
    return (c,)


def drawn(L, p, inside=False):
    c = L.cls_of(p)
    g = lambda a: L.get(p, a)
    tail = (g('level_polarity'), g('units'))
    if c == 'Line':
        return ('Line', g('start'), g('end')) + (() if inside else (describe(L, g('aperture')),)) + tail
    if c == 'Arc':
        return ('Arc', g('start'), g('end'), g('center'), g('direction'), g('quadrant_mode')) + (() if inside else (describe(L, g('aperture')),)) + tail
    if c == 'Region':
        return ('Region', tuple(drawn(L, q, True) for q in L.items(g('primitives')))) + tail
    if c == 'AMGroup':
        pos = L.get(L.items(g('primitives'))[0], 'position')
        # the group is placed where its first shape lies relative to its own offset
        at = (pos[0] - 0.1, pos[1] - 0.2)
        return ('Flash', at, describe(L, p, at)) + tail
    return ('Flash', g('position'), describe(L, p)) + tail


def bruijn(k, n):
    """A cyclic sequence over range(k) with every n-tuple once."""
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq


CORE = ('move-xy', 'move-', 'draw-x', 'no op xy', 'G02', 'G01', 'ccw arc', 'modal arc', 'flash xy', 'flash', 'G36*', 'G37*', 'G74*', '%LPC*%', 'D11*', 'D13*', '%FSTAX33Y33*%', '%ADD10C,0.07*%')


def run(O, thorough):
    L = Lab(['gerber.rs274x'], stubs=STUBS)
    where = L.where('gerber.rs274x:GerberParser', '_evaluate_coord')
    alpha = alphabet()
    n = 2
    seq = bruijn(len(alpha), 2)
    jobs = []
    size = 30
    for i in range(0, len(seq), size):
        jobs.append((HEADERS[(i // size) % len(HEADERS)], [seq[(i + k) % len(seq)] for k in range(size + n - 1)]))
    core = [i for i, a in enumerate(alpha) if a[0] in CORE]
    seq = bruijn(len(core), 4 if thorough else 3)
    n = 4 if thorough else 3
    size = 60
    for i in range(0, len(seq), size):
        jobs.append((HEADERS[(i // size) % len(HEADERS)], [core[seq[(i + k) % len(seq)]] for k in range(size + n - 1)]))

    def one(job):
        (units, fmt, zs, head), kinds = job
        m = Machine(units, fmt, zs)
        m.aps, m.ap = dict(APD), 10
        txt, names = [head, APS, 'D10*\n'], []
        lens = []
        for n, k in enumerate(kinds):
            name, make = alpha[k]
            for g in guard(m, name, alpha):
                t, go = [a[1](n) for a in alpha if a[0] == g][0]
                txt.append(t + '\n')
                go(m)
                names.append(g)
                lens.append(len(m.out))
            t, go = make(n)
            txt.append(t + '\n')
            go(m)
            names.append(name)
            lens.append(len(m.out))
        txt.append('M02*\n')
        L.fresh()
        key = 'program %s' % ' / '.join(names)
        key = key[:60] + '..%08x' % (hash_(key + head))
        oc = L.run(lambda: L.I.call(L.obj_from('gerber.rs274x:loads'), [''.join(txt)], {}))
        O.note(L)
        L.I.call_log.clear()
        if not O.outcome(key, oc, where, 'reading the blocks [%s]' % ' / '.join(names)):
            return
        f = oc.value
        got = [drawn(L, p) for p in L.items(L.get(f, 'primitives'))]

        def blocks(i):
            j = next((j for j, c in enumerate(lens) if c > i), len(names) - 1)
            return ' / '.join(names[max(0, j - 4):j + 1])
        for i, (g, w) in enumerate(zip(got, m.out)):
            if O.equal('%s:%d' % (key, i), g, w, where, 'what is drawn after ... %s' % blocks(i)) is False:
                return
        if len(got) != len(m.out):
            i = min(len(got), len(m.out))
            O.fail(key + ':count', where, '%d objects are drawn instead of %d; the first difference is after ... %s' % (len(got), len(m.out), blocks(i)))
            return
        O.ok(key + ':count')
        s = L.get(f, 'settings')
        O.equal(key + ':units', L.get(s, 'units'), m.units, where, 'units of the file')
        O.equal(key + ':format', L.get(s, 'format'), m.fmt, where, 'format of the file')
        O.equal(key + ':apertures', tuple(sorted((describe(L, a) for a in L.items(L.get(f, 'apertures'))), key=str)), tuple(sorted(m.aps.values(), key=str)), where, 'apertures of the file')
    parallel(O, jobs, one)
    apertures(O, L)
    quadrants(O)
    contours(O, L, where)


def hash_(s):
    import zlib
    return zlib.crc32(s.encode())


def contours(O, L, where):
    """Regions before any aperture is selected; contours left open at the end of the program."""
    n = lambda t: coord(t, (2, 4), 'leading')
    for key, body, want in (
            ('no aperture', 'G36*\nX1Y2D02*\nX3Y4D01*\nG03X5Y6I7J8D01*\nG37*\n',
             [('Region', (('Line', (n('1'), n('2')), (n('3'), n('4')), 'dark', 'inch'),
                          ('Arc', (n('3'), n('4')), (n('5'), n('6')), (n('3') + n('7'), n('4') + n('8')), 'counterclockwise', 'multi-quadrant', 'dark', 'inch')), 'dark', 'inch')]),
            ('empty', 'G36*\nX1Y2D02*\nG37*\n', []),
            ('two', 'G36*\nX1Y2D02*\nX3Y4D01*\nX5Y6D01*\nX7Y8D02*\nX9Y1D01*\nX2Y3D01*\nG37*\n',
             [('Region', (('Line', (n('1'), n('2')), (n('3'), n('4')), 'dark', 'inch'), ('Line', (n('3'), n('4')), (n('5'), n('6')), 'dark', 'inch')), 'dark', 'inch'),
              ('Region', (('Line', (n('7'), n('8')), (n('9'), n('1')), 'dark', 'inch'), ('Line', (n('9'), n('1')), (n('2'), n('3')), 'dark', 'inch')), 'dark', 'inch')])):
        L.fresh()
        oc = L.run(lambda: [drawn(L, p) for p in L.items(L.get(L.I.call(L.obj_from('gerber.rs274x:loads'), ['%FSLAX24Y24*%\n%MOIN*%\n' + body + 'M02*\n'], {}), 'primitives'))])
        if O.outcome('contour:' + key, oc, where, 'reading a region'):
            O.equal('contour:' + key, tuple(oc.value), tuple(want), where, 'regions drawn')


def apertures(O, L):
    """Aperture definitions with digits of unknown value."""
    where = L.where('gerber.rs274x:GerberParser', '_define_aperture')
    ds = {}

    def T(nm, whole=False):
        """(text, value) of the number <d>.<d><d> or <d>"""
        a, b, c = dig(nm + '0'), dig(nm + '1'), dig(nm + '2')
        if whole:
            return [a], a.val
        return [a, '.', b, c], a.val + b.val * 0.1 + c.val * 0.01
    cases = []
    for shape, base, cls in (('C', 'w', 'Circle'), ('R', 'wh', 'Rectangle'), ('O', 'wh', 'Obround'), ('P', 'wnr', 'Polygon')):
        for hole in ('', 'd', 'xy'):
            fields_ = list(base) + list(hole)
            cases.append((shape, cls, fields_))
    cases.append(('P', 'Polygon', ['w', 'n']))
    for shape, cls, fl in cases:
        for units in ('inch', 'metric'):
            for layout in ('%%ADD%d%s,', '%%ADD%d%s,'):
                txt, val = ['%FSLAX24Y24*%\n%MO' + ('IN' if units == 'inch' else 'MM') + '*%\n%ADD12' + shape + ','], {}
                for i, a in enumerate(fl):
                    if a == 'n':
                        t, v = ['6'], 6
                    else:
                        t, v = T(a)
                    val[a] = v
                    txt += (['X'] if i else []) + t
                txt.append('*%\nD12*\nX1Y1D03*\nM02*\n')
            want = {'Circle': lambda: (cls, val['w']), 'Rectangle': lambda: (cls, val['w'], val['h']), 'Obround': lambda: (cls, val['w'], val['h']),
                    'Polygon': lambda: (cls, val['n'], val['w'] * 0.5, val.get('r', 0))}[cls]()
            want += (val.get('d', 0), val.get('x', 0), val.get('y', 0))
            key = 'aperture:%s:%s:%s' % (shape, ''.join(fl), units)
            L.fresh()

            def go():
                f = L.I.call(L.obj_from('gerber.rs274x:loads'), [text(*txt)], {})
                p = L.items(L.get(f, 'primitives'))
                a = L.items(L.get(f, 'apertures'))
                return len(p), len(a), describe(L, p[0]), describe(L, a[0]), L.get(p[0], 'units'), L.get(a[0], 'units'), L.get(p[0], 'position')
            oc = L.run(go)
            O.note(L)
            if O.outcome(key, oc, where, 'reading the aperture definition %s %s' % (shape, fl)):
                n = lambda t: coord(t, (2, 4), 'leading')
                O.equal(key, oc.value, (1, 1, want, want, units, units, (n('1'), n('1'))), where, 'flash and aperture of an aperture %s with modifiers %s' % (shape, fl))
    # macros take their modifiers from the definition
    for k in (1, 2, 3):
        ts = [T('m%d' % i) for i in range(k)]
        txt = ['%FSLAX24Y24*%\n%MOIN*%\n%AMDOT*1,1,$1,$2,$3*%\n%ADD12DOT,'] + [q for i, (t, _) in enumerate(ts) for q in (['X'] if i else []) + t] + ['*%\nD12*\nX1Y1D03*\nM02*\n']
        v = [ts[i][1] if i < k else 0 for i in range(3)]
        L.fresh()

        def go():
            f = L.I.call(L.obj_from('gerber.rs274x:loads'), [text(*txt)], {})
            p = L.items(L.get(f, 'primitives'))
            q = L.items(L.get(p[0], 'primitives'))
            return len(p), len(q), L.get(q[0], 'diameter'), L.get(q[0], 'position')
        oc = L.run(go)
        key = 'aperture:macro:%d' % k
        if O.outcome(key, oc, where, 'reading a macro aperture'):
            n = lambda t: coord(t, (2, 4), 'leading')
            O.equal(key, oc.value, (1, 1, v[0], (n('1') + v[1], n('1') + v[2])), where, 'flash of a macro aperture with %d modifiers' % k)


def quadrants(O):
    """Single-quadrant arcs: unsigned offsets, at most a quarter turn."""
    table = {}

    def decode(I, args, kw):
        return table[args[0]]
    L = Lab(['gerber.rs274x'], stubs={'gerber.utils:parse_gerber_value': decode})
    where = L.where('gerber.rs274x:GerberParser', '_find_center')
    cx, cy = sym('cx'), sym('cy')
    for g, sign in ((2, -1), (3, 1)):
        for a0 in range(0, 360, 15):
            for sweep in (15, 30, 45, 60, 75, 90):
                a1 = a0 + sign * sweep
                r = 2.0
                v = lambda a: (round(r * math.cos(math.radians(a)), 9), round(r * math.sin(math.radians(a)), 9))
                s, e = v(a0), v(a1)
                table.update({'1': cx + s[0], '2': cy + s[1], '3': cx + e[0], '4': cy + e[1], '5': abs(s[0]), '6': abs(s[1])})
                L.fresh()

                def go():
                    f = L.I.call(L.obj_from('gerber.rs274x:loads'), ['%%FSLAX24Y24*%%\n%%MOIN*%%\n%%ADD10C,0.01*%%\nD10*\nG74*\nX1Y2D02*\nG0%dX3Y4I5J6D01*\nM02*\n' % g], {})
                    p = L.items(L.get(f, 'primitives'))
                    return len(p), L.get(p[0], 'center')
                oc = L.run(go)
                key = 'quadrant:G0%d from %d by %d' % (g, a0, sweep)
                if not O.outcome(key, oc, where, 'reading a single-quadrant arc'):
                    continue
                n, c = oc.value
                if not isinstance(c, tuple):
                    O.equal(key, c, (cx, cy), where, 'center of the G74 arc G0%d from %d degrees by %d degrees' % (g, a0, sweep))
                    continue
                d = [Poly.of(a) - b for a, b in zip(c, (cx, cy))]
                ks = [x.const() if isinstance(x, Poly) else x for x in d]
                if all(k is not None and abs(k) < 1e-6 for k in ks):
                    O.ok(key)
                else:
                    O.equal(key, c, (cx, cy), where, 'center of the G74 arc G0%d from %d degrees by %d degrees' % (g, a0, sweep))
    O.note(L)
