"""C12 interpretation of Excellon programs."""
import itertools

from sa.lab import *
from sa.par import parallel
from .strs import *

RULE = ('Abstract interpretation of the Excellon reader on every program made of a header, a mode prefix and up to two (thorough: three) lines from an '
        'alphabet of all line kinds, with the coordinates as labelled text of unknown value. Hits, slots, tool assignment, hit counts, final settings '
        'and the retained statements must be those of an independent transition table; each coordinate must be decoded with the number format and '
        'zero suppression in force at its line.')
ASSUMPTIONS = ['coordinate decoding itself is C14: parse_gerber_value is an uninterpreted function of text, format and suppression here',
               'a program is a composition of single-line transitions; lines of the same kind behave alike']

NUM_TEXT = DIG + '+-.'


def decode(I, args, kw):
    names = ('value', 'format', 'zero_suppression')
    a = dict(zip(names, args))
    a.update(kw)
    return coord(a['value'], a.get('format', (2, 5)), a.get('zero_suppression', 'trailing'))


def coord(text, fmt, zs):
    return app('decode', text if isinstance(text, str) else vkey(text), vkey(fmt), zs)


STUBS = {'gerber.utils:parse_gerber_value': decode}


class Machine(object):
    """The transition table."""

    def __init__(self, units='inch', zeros='leading', fmt=(2, 4)):
        self.notation = 'absolute'
        self.units, self.zeros, self.fmt = units, zeros, fmt
        self.pos = [0.0, 0.0]
        self.tool = None
        self.down = False
        self.mode = 'drill'
        self.hits = []
        self.counts = {}
        self.tools = {}

    def num(self, t):
        return coord(t, self.fmt, 'trailing' if self.zeros == 'leading' else 'leading')

    def move(self, x, y):
        for i, t in enumerate((x, y)):
            if t is not None:
                v = self.num(t)
                self.pos[i] = v if self.notation == 'absolute' else self.pos[i] + v

    def hit(self, *h):
        self.hits.append((self.tool,) + h)
        self.counts[self.tool] = self.counts.get(self.tool, 0) + 1


def lines():
    """[(name, [text lines], transition, only in absolute notation)]"""
    out = []
    fresh = itertools.count()

    def T():
        return Hole('v%d' % next(fresh), NUM_TEXT, 1, None, None)

    def add(name, make, fn, absolute=False):
        out.append((name, make, fn, absolute))

    def xy(x, y):
        def make(n):
            a, b = Hole('x' + n, DIG, 1, None), Hole('y' + n, DIG, 1, None)
            return (a if x else None), (b if y else None)
        return make

    def ctext(a, b):
        return (['X', a] if a is not None else []) + (['Y', b] if b is not None else [])

    for x, y in ((1, 1), (1, 0), (0, 1)):
        nm = ('x' if x else '') + ('y' if y else '')

        def plain(n, mk=xy(x, y)):
            a, b = mk(n)

            def go(m):
                start = tuple(m.pos)
                m.move(a and key(a), b and key(b))
                if m.mode == 'drill':
                    m.hit('hit', tuple(m.pos))
                elif m.mode == 'linear' and m.down:
                    m.hit('slot', start, tuple(m.pos))
            return text(*ctext(a, b)), go
        add('move-' + nm, plain, None)
        for g in ('G00', 'G01'):
            for sep in ('', '\n'):
                if (x, y) != (1, 1) and sep:
                    continue

                def rout(n, mk=xy(x, y), g=g, sep=sep):
                    a, b = mk(n)

                    def go(m):
                        start = tuple(m.pos)
                        m.mode = 'rout' if g == 'G00' else 'linear'
                        m.move(a and key(a), b and key(b))
                        if g == 'G01' and m.down:
                            m.hit('slot', start, tuple(m.pos))
                    return text(g + sep, *ctext(a, b)), go
                add('%s%s-%s' % (g, '-split' if sep else '', nm), rout, None)
        for n_ in (1, 3):
            def repeat(n, mk=xy(x, y), k=n_):
                a, b = mk(n)

                def go(m):
                    for _ in range(k):
                        for i, t in enumerate((a, b)):
                            if t is not None:
                                m.pos[i] = m.pos[i] + m.num(key(t))
                        m.hit('hit', tuple(m.pos))
                return text('R%d' % k, *ctext(a, b)), go
            if (x, y) == (1, 1) or n_ == 3:
                add('repeat%d-%s' % (n_, nm), repeat, None)
    for s, e in (((1, 1), (1, 1)), ((1, 1), (1, 0)), ((1, 1), (0, 1)), ((1, 0), (1, 0)), ((0, 1), (0, 1)), ((1, 0), (1, 1))):
        def slot(n, s=s, e=e):
            a, b = xy(*s)(n + 's')
            c, d = xy(*e)(n + 'e')

            def go(m):
                start = [m.num(key(t)) if t is not None else m.pos[i] for i, t in enumerate((a, b))]
                end = [m.num(key(t)) if t is not None else start[i] for i, t in enumerate((c, d))]
                m.pos = end
                if m.mode == 'drill':
                    m.hit('slot', tuple(start), tuple(end))
            return text(*(ctext(a, b) + ['G85'] + ctext(c, d))), go
        add('slot-%s-%s' % (''.join(map(str, s)), ''.join(map(str, e))), slot, None, True)

    def simple(name, txt, fn=None):
        add(name, lambda n: (txt, fn or (lambda m: None)), None)

    def setter(**k):
        def go(m):
            for a, v in k.items():
                setattr(m, a, v)
        return go
    simple('M15', 'M15', setter(down=True))
    simple('M16', 'M16', setter(down=False))
    simple('M17', 'M17', setter(down=False))
    simple('G05', 'G05', setter(down=False, mode='drill'))
    simple('G90', 'G90', setter(notation='absolute'))
    simple('ICI,ON', 'ICI,ON', setter(notation='incremental'))
    simple('ICI,OFF', 'ICI,OFF', setter(notation='absolute'))
    for t, n in (('T2', 2), ('T02', 2), ('T1', 1), ('T0203', 2)):
        simple(t, t, setter(tool=n))
    simple('T0', 'T0')
    for t, k in (('INCH,LZ', dict(units='inch', zeros='leading')), ('INCH,TZ', dict(units='inch', zeros='trailing')),
                 ('METRIC,LZ', dict(units='metric', zeros='leading')), ('METRIC,TZ', dict(units='metric', zeros='trailing')),
                 ('METRIC,LZ,000.000', dict(units='metric', zeros='leading', fmt=(3, 3))), ('METRIC,TZ,0000.00', dict(units='metric', zeros='trailing', fmt=(4, 2))),
                 ('INCH,TZ,00.0000', dict(units='inch', zeros='trailing', fmt=(2, 4)))):
        simple(t, t, setter(**k))
    simple('M71', 'M71', setter(units='metric'))
    simple('M72', 'M72', setter(units='inch'))
    simple('FMAT,1', 'FMAT,1', setter(fmt=(1, 5)))
    simple('FMAT,2', 'FMAT,2', setter(fmt=(2, 4)))
    simple('format comment', ';FILE_FORMAT=3:3', setter(fmt=(3, 3)))
    for t in ('; note', 'G40', 'G41', 'G42', 'VER,1', 'F080', 'G93X0Y0', 'M25', '', '%', 'M95', '   '):
        simple(t or 'blank', t)
    return out


def key(h):
    return vkey(SStr([h]))


PREFIXES = [('drill', '', None), ('linear down', 'G01X0Y0\nM15\n', dict(mode='linear', down=True)), ('linear up', 'G01X0Y0\n', dict(mode='linear')),
            ('rout', 'G00X0Y0\n', dict(mode='rout')), ('incremental', 'ICI,ON\n', dict(notation='incremental')),
            ('incremental linear down', 'G01X0Y0\nM15\nICI,ON\n', dict(mode='linear', down=True, notation='incremental'))]


def program(names, prefix, kinds, init):
    """(text, expected machine) or None when the sequence is out of the table's scope."""
    pname, ptext, pset = prefix
    m = Machine(*init)
    m.tools = {1: '0.1', 2: '0.2'}
    m.tool = 1
    parts = ['M48\nT1C0.1\nT2C0.2\n%\nT1\n']
    if 'G0' in ptext:
        m.pos = [m.num('0'), m.num('0')]
    for a, v in (pset or {}).items():
        setattr(m, a, v)
    parts.append(ptext)
    for i, k in enumerate(names):
        nm, make, _, absolute = kinds[k]
        if absolute and m.notation != 'absolute':
            return None
        t, go = make('%d' % i)
        parts += [t, '\n']
        go(m)
    return SStr([q for p in parts for p in [p] for q in (p.parts if isinstance(p, SStr) else [p])]).simp(), m


def hits_of(L, f):
    out = []
    for h in L.items(L.get(f, 'hits')):
        c = L.cls_of(h)
        t = L.get(h, 'tool')
        n = L.get(t, 'number') if isinstance(t, Ref) else t
        if c == 'DrillHit':
            out.append((n, 'hit', L.get(h, 'position')))
        elif c == 'DrillSlot':
            out.append((n, 'slot', L.get(h, 'start'), L.get(h, 'end')))
        else:
            out.append((n, c))
    return out


def compare(O, L, key_, f, m, where, txt):
    got = hits_of(L, f)
    if len(got) != len(m.hits):
        O.fail(key_ + ':count', where, '%s gives %d hits and slots, expected %d' % (txt, len(got), len(m.hits)))
        return
    O.ok(key_ + ':count')
    for i, (g, w) in enumerate(zip(got, m.hits)):
        O.equal('%s:%d' % (key_, i), g, w, where, 'hit %d (tool, kind, position) of %s' % (i, txt))
    for t in sorted(m.tools):
        tool = L.I.bm.getitem(L.get(f, 'tools'), t)
        O.equal('%s:hit_count %d' % (key_, t), L.get(tool, 'hit_count'), m.counts.get(t, 0), where, 'hit count of tool %d of %s' % (t, txt))
    s = L.get(f, 'settings')
    for a, v in (('units', m.units), ('format', m.fmt), ('zeros', m.zeros), ('notation', m.notation)):
        O.equal('%s:%s' % (key_, a), L.get(s, a), v, where, '%s of %s' % (a, txt))


def run(O, thorough):
    L = Lab(['gerber.excellon', 'gerber.excellon_tool', 'gerber.excellon_settings'], stubs=STUBS)
    where = L.where('gerber.excellon:ExcellonParser')
    kinds = lines()
    L.fresh()

    def loads(txt, init, **k):
        s = L.new('gerber.cam:FileSettings', units=init[0], zeros=init[1], format=init[2])
        return L.I.call(L.obj_from('gerber.excellon:loads'), [txt], dict(settings=s, **k))
    init = ('inch', 'leading', (2, 4))
    seqs = []
    idx = range(len(kinds))
    for p in PREFIXES:
        for k in idx:
            seqs.append((p, (k,)))
        for a in idx:
            for b in idx:
                if kinds[b][0] in QUIET and kinds[a][0] in QUIET:
                    continue
                seqs.append((p, (a, b)))
    if thorough:
        core = [i for i in idx if kinds[i][0] in CORE]
        for p in PREFIXES:
            seqs += [(p, s) for s in itertools.product(core, repeat=3)]

    def one(job):
        p, names = job
        pr = program(names, p, kinds, init)
        if pr is None:
            return
        txt, m = pr
        nm = '%s:%s' % (p[0], ' / '.join(kinds[k][0] for k in names))
        L.fresh()
        oc = L.run(lambda: loads(txt, init))
        if not O.outcome(nm, oc, where, 'reading %s' % nm):
            return
        compare(O, L, nm, oc.value, m, where, 'a program with [%s]' % nm)
        O.note(L)
        L.I.call_log.clear()
    parallel(O, seqs, one)
    spellings(O, L, loads, where)
    headers(O, L, loads, where)
    retained(O, L, loads, where)


QUIET = ('; note', 'G40', 'G41', 'G42', 'VER,1', 'F080', 'G93X0Y0', 'M25', 'blank', '%', 'M95', '   ', 'T0')
CORE = ('move-xy', 'move-x', 'G00-xy', 'G01-xy', 'G01-split-xy', 'repeat3-xy', 'slot-11-11', 'slot-10-11', 'M15', 'M16', 'G05', 'ICI,ON', 'G90', 'T2', 'METRIC,TZ', 'FMAT,1', 'M71')


HEAD = 'M48\nINCH,LZ\nT1C0.1\nT2C0.2\n%\n'


def spellings(O, L, loads, where):
    """Coordinates with signs, decimal points and blanks at the end of the line."""
    d = lambda n: Hole(n, DIG, 1, None)
    forms = [('digits', lambda n: [d(n)]), ('minus', lambda n: ['-', d(n)]), ('plus', lambda n: ['+', d(n)]), ('decimal', lambda n: [d(n), '.', d(n + 'f')]),
             ('minus decimal', lambda n: ['-', d(n), '.', d(n + 'f')]), ('point', lambda n: ['.', d(n)]), ('trailing point', lambda n: [d(n), '.'])]
    for fx, mx in forms:
        for fy, my in forms:
            for end in ('\n', '\r\n', ' \n', ''):
                if end != '\n' and fx != fy:
                    continue
                nx, ny = mx('x'), my('y')
                txt = text('M48\nT1C0.1\n%\nT1\nX', *(nx + ['Y'] + ny + [end]))
                key_ = 'spelling:%s,%s,%r' % (fx, fy, end)
                L.fresh()
                oc = L.run(lambda: hits_of(L, loads(txt, ('inch', 'leading', (2, 4)))))
                if not O.outcome(key_, oc, where, 'reading a coordinate line'):
                    continue
                want = [(1, 'hit', (coord(text(*nx), (2, 4), 'trailing'), coord(text(*ny), (2, 4), 'trailing')))]
                O.equal(key_, tuple(oc.value), tuple(want), where, 'hits of a line X<%s>Y<%s>' % (fx, fy))


def headers(O, L, loads, where):
    """Tool definitions, plating, tools defined elsewhere or not at all."""
    n = lambda t: coord(t, (2, 4), 'trailing')
    fields = {'C': ('diameter', 1), 'F': ('feed_rate', 1), 'B': ('retract_rate', 1), 'H': ('max_hit_count', 1), 'Z': ('depth_offset', 1), 'S': ('rpm', 1000)}

    def tools(txt, **k):
        f = loads(txt, ('inch', 'leading', (2, 4)), **k)
        t = L.get(f, 'tools')
        r = {}
        for num in L.items(t):
            o = L.I.bm.getitem(t, num)
            r[num] = dict((a, L.get(o, a)) for a in ('number', 'diameter', 'feed_rate', 'retract_rate', 'max_hit_count', 'depth_offset', 'rpm', 'plated', 'hit_count'))
            r[num]['units'] = L.get(L.get(o, 'settings'), 'units')
        return r, hits_of(L, f)

    def check(key_, txt, want, hits=None, **k):
        L.fresh()
        kk = {}
        if 'ext' in k:
            kk['tools'] = L.I.new_dict([(a, L.new('gerber.excellon_statements:ExcellonTool', L.new('gerber.cam:FileSettings', units='inch'), number=a, **v)) for a, v in k['ext'].items()])
        oc = L.run(lambda: tools(txt, **kk))
        O.note(L)
        if not O.outcome(key_, oc, where, 'reading %r' % (txt if isinstance(txt, str) else show(txt))):
            return
        got, gh = oc.value
        O.equal(key_ + ':numbers', tuple(sorted(got)), tuple(sorted(want)), where, 'tools defined')
        for num in want:
            for a, v in want[num].items():
                if num in got:
                    O.equal('%s:%s.%s' % (key_, num, a), got[num][a], v, where, '%s of tool %s' % (a, num))
        if hits is not None:
            O.equal(key_ + ':hits', tuple(gh), tuple(hits), where, 'hits')
    H = lambda nm: Hole(nm, DIG + '.', 1, None)
    for r in (1, 2, 3):
        for fs in itertools.permutations('CFBHZS', r):
            if r == 3 and 'C' not in fs:
                continue
            parts, want = ['M48\nT4'], dict((a, None) for a, _ in fields.values())
            for c in fs:
                parts += [c, H('v' + c)]
                want[fields[c][0]] = n(vkey(text(H('v' + c)))) * fields[c][1]
            parts.append('\n%\nT4\n')
            want.update(number=4, plated=None, units='inch', hit_count=0)
            check('tool:' + ''.join(fs), text(*parts), {4: want})
    check('tool:two-digit', text('M48\nT04C', H('a'), '\nT12C', H('b'), '\n%\n'), {4: {'number': 4, 'diameter': n(vkey(text(H('a'))))}, 12: {'number': 12, 'diameter': n(vkey(text(H('b'))))}})
    check('tool:off', 'M48\nT1C0.1\nT1,OFF\n%\n', {1: {'diameter': n('0.1')}})
    check('tool:plated', 'M48\n;TYPE=PLATED\nT1C0.1\n;TYPE=NON_PLATED\nT2C0.1\n%\n', {1: {'plated': 'plated'}, 2: {'plated': 'nonplated'}})
    check('tool:unplated first', 'M48\nT1C0.1\n;TYPE=PLATED\nT2C0.1\n%\n', {1: {'plated': None}, 2: {'plated': 'plated'}})
    check('tool:format', 'M48\nMETRIC,TZ,000.000\nT1C5\n%\n', {1: {'diameter': coord('5', (3, 3), 'leading'), 'units': 'metric'}})
    xy = (n('1'), n('2'))
    one = (n('0.1'))
    check('hit:in header', 'M48\nT1C0.1\nX1Y2\n%\n', {1: {'diameter': one, 'hit_count': 1}}, [(1, 'hit', xy)])
    check('hit:no selection', 'M48\nT1C0.1\n%\nX1Y2\n', {1: {'diameter': one, 'hit_count': 1}}, [(1, 'hit', xy)])
    check('hit:next tool', 'M48\nT1C0.1\nT2C0.2\n%\nT1\nX1Y2\nM00\nX1Y2\n', {1: {'hit_count': 1}, 2: {'hit_count': 1}}, [(1, 'hit', xy), (2, 'hit', xy)])
    check('tool:undefined', 'M48\n%\nT3\nX1Y2\n', {3: {'diameter': (16 + 8 * 3) / 1000.0, 'number': 3, 'hit_count': 1}}, [(3, 'hit', xy)])
    check('tool:undefined metric', 'M48\nM71\n%\nT3\nX1Y2\n', {3: {'diameter': (16 + 8 * 3) / 1000.0 * 25.4, 'number': 3, 'units': 'metric'}}, [(3, 'hit', xy)])
    D = sym('extd', '+')
    ext = {5: {'diameter': D, 'plated': 'plated'}, 1: {'diameter': D, 'plated': 'nonplated'}}
    check('tool:external', 'M48\n%\nT5\nX1Y2\n', {5: {'diameter': D, 'plated': 'plated', 'hit_count': 1}}, [(5, 'hit', xy)], ext=ext)
    check('tool:external plating', 'M48\nT1C0.1\nT2C0.2\n%\nT1\n', {1: {'diameter': one, 'plated': 'nonplated'}, 2: {'plated': None}}, ext=ext)
    check('tool:plating kept', 'M48\n;TYPE=PLATED\nT1C0.1\n%\nT1\n', {1: {'plated': 'plated'}}, ext=ext)
    com = '; Holesize 6. = 40.000000 Tolerance = +3.000000/-2.000000 %s MILS Quantity = 7\n'
    check('tool:comment', 'M48\n' + com % 'PLATED' + '%\nT6\nX1Y2\n', {6: {'number': 6, 'plated': 'plated', 'hit_count': 1}}, [(6, 'hit', xy)])
    check('tool:comment before definition', 'M48\n' + com % 'PLATED' + 'T6C0.1\n%\nT6\nX1Y2\n', {6: {'diameter': one, 'hit_count': 1}}, [(6, 'hit', xy)])
    check('tool:comment after definition', 'M48\nT6C0.1\n' + com % 'NON_PLATED' + '%\nT6\n', {6: {'diameter': one, 'plated': 'nonplated'}})


def retained(O, L, loads, where):
    """Every line that is not blank is kept as a statement of its kind, in order."""
    X, Y = Hole('x', DIG, 1, None), Hole('y', DIG, 1, None)
    n = lambda h: coord(vkey(SStr([h])), (2, 4), 'trailing')
    C = ('CoordinateStmt', {'x': n(X), 'y': n(Y)})
    table = [
('M95', [('HeaderEndStmt', {})]), ('%', [('RewindStopStmt', {})]), ('; a note ', [('CommentStmt', {'comment': ' a note'})]),
        ('M15', [('ZAxisRoutPositionStmt', {})]), ('M16', [('RetractWithClampingStmt', {})]), ('M17', [('RetractWithoutClampingStmt', {})]),
        ('M30', [('EndOfProgramStmt', {'x': None, 'y': None})]), (['M30X', X, 'Y', Y], [('EndOfProgramStmt', {'x': n(X), 'y': n(Y)})]),
        ('G05', [('DrillModeStmt', {})]), ('G40', [('CutterCompensationOffStmt', {})]), ('G41', [('CutterCompensationLeftStmt', {})]), ('G42', [('CutterCompensationRightStmt', {})]),
        ('G90', [('AbsoluteModeStmt', {})]), ('ICI,ON', [('IncrementalModeStmt', {'mode': 'on'})]), ('ICI,OFF', [('IncrementalModeStmt', {'mode': 'off'})]),
        ('VER,1', [('VersionStmt', {'version': 1})]), ('VER,2', [('VersionStmt', {'version': 2})]), ('FMAT,1', [('FormatStmt', {'format': 1})]), ('FMAT,2', [('FormatStmt', {'format': 2})]),
        ('M71', [('MeasuringModeStmt', {})]), ('M72', [('MeasuringModeStmt', {})]), ('INCH,LZ', [('UnitStmt', {'zeros': 'leading'})]), ('METRIC,TZ', [('UnitStmt', {'zeros': 'trailing'})]),
        ('F080', [('ZAxisInfeedRateStmt', {'rate': 80})]), ('T2', [('ToolSelectionStmt', {'tool': 2, 'compensation_index': None})]), ('T0203', [('ToolSelectionStmt', {'tool': 2, 'compensation_index': 3})]),
        (['X', X, 'Y', Y], [('CoordinateStmt', {'x': n(X), 'y': n(Y)})]), (['X', X], [('CoordinateStmt', {'x': n(X), 'y': None})]), (['Y', Y], [('CoordinateStmt', {'x': None, 'y': n(Y)})]),
        (['R12X', X, 'Y', Y], [('RepeatHoleStmt', {'count': 12, 'xdelta': n(X), 'ydelta': n(Y)})]), (['R2Y', Y], [('RepeatHoleStmt', {'count': 2, 'xdelta': None, 'ydelta': n(Y)})]),
        (['X', X, 'Y', Y, 'G85X', Y, 'Y', X], [('SlotStmt', {'x_start': n(X), 'y_start': n(Y), 'x_end': n(Y), 'y_end': n(X)})]),
        (['G00X', X, 'Y', Y], [('RouteModeStmt', {}), C]), (['G01X', X, 'Y', Y], [('RouteModeStmt|LinearModeStmt', {}), C]), (['G00\nX', X, 'Y', Y], [('RouteModeStmt', {}), C]),
        ('M25', [('UnknownStmt', {'stmt': 'M25'})]), ('G93X0Y0', [('UnknownStmt', {'stmt': 'G93X0Y0'})]), ('M47,text', [('UnknownStmt', {'stmt': 'M47,text'})]), ('', []), ('  ', []),
    ]
    pre = 5

    def read(txt):
        f = loads(txt, ('inch', 'leading', (2, 4)))
        return [(L.cls_of(s), s) for s in L.items(L.get(f, 'statements'))]
    for i, (t, want) in enumerate(table):
        for j, (t2, want2) in enumerate(table):
            if j % 6 != i % 6 or t in ('M48',):
                continue
            a, b = [t] if isinstance(t, str) else t, [t2] if isinstance(t2, str) else t2
            if 'METRIC' in str(t) or 'FMAT' in str(t) or 'METRIC' in str(t2) or 'FMAT' in str(t2):
                skip = True
            else:
                skip = False
            txt = text('M48\nT1C0.1\nT2C0.2\n%\nT1\n', *(a + ['\n'] + b + ['\n']))
            key_ = 'statements:%s;%s' % (show(text(*a) if a != [''] else ''), show(text(*b) if b != [''] else ''))
            L.fresh()
            oc = L.run(lambda: read(txt))
            if not O.outcome(key_, oc, where, 'reading %s' % show(txt)):
                continue
            got, exp = oc.value[pre:], want + want2
            if len(got) != len(exp) or any(g[0] not in e[0].split('|') for g, e in zip(got, exp)):
                O.fail(key_, where, 'lines %s are kept as %s, expected %s' % (show(txt), [g[0] for g in got], [e[0] for e in exp]))
                continue
            O.ok(key_)
            for k, ((c, s), (_, attrs)) in enumerate(zip(got, exp)):
                for at, v in attrs.items():
                    if skip and isinstance(v, Poly):
                        continue
                    O.equal('%s:%d.%s' % (key_, k, at), L.get(s, at), v, where, '%s of %s' % (at, c))
    O.note(L)
