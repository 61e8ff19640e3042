"""C13 a written Excellon file reads back as the same holes."""
import itertools

from sa.lab import *
from sa.par import parallel
from .strs import *
from .c09 import hash_
from .c11 import Codec, openable, value, settings
from .c12 import hits_of

RULE = ('Abstract interpretation of ExcellonFile.write() on files read from every pairing of a set of headers with sequences of hits, slots, repeats, routes '
        'and tool changes, followed by the reader on the written text: tools with all their parameters, and the holes and slots of every tool in order '
        'and at the same places, must come back, with the same units and number format, and writing again must give the same text. Every statement kind '
        'is also written and read alone.')
ASSUMPTIONS = ['writing and reading of numbers is C14: write_gerber_value and parse_gerber_value are an uninterpreted writer and its inverse for the same format here',
               'tool diameters are written by decimal_string, whose decimals are C14']

E = 'gerber.excellon_statements:'
X = 'gerber.excellon:'


class Numbers(Codec):
    """Texts with a decimal point are that number in every format; other texts not written here are distinct numbers per text and format."""

    def read(self, I, args, kw):
        t = self.args(args, kw)[0]
        if isinstance(t, str) and '.' in t:
            return float(t)
        v = Codec.read(self, I, args, kw)
        if isinstance(v, Poly):
            k = show(v)
            if k not in self.made:
                self.made[k] = 0.0 if not t.strip('+-0') else ((len(self.made) * 37 + 11) % 997) / 64.0 * (-1 if t[:1] == '-' else 1)
            return self.made[k]
        return v

    def reset(self):
        Codec.reset(self)
        self.made = {}


C = Numbers()
STUBS = {'gerber.utils:parse_gerber_value': C.read, 'gerber.utils:write_gerber_value': C.write}
TOOL = ('number', 'diameter', 'feed_rate', 'retract_rate', 'max_hit_count', 'depth_offset', 'rpm', 'plated', 'hit_count')
INIT = ('inch', 'leading', (2, 4))


def headers():
    T = 'T1C0.1\nT2C0.25\nT3C0.0313\n'
    out = [('plain', 'M48\n' + T + '%\n'), ('M95', 'M48\n' + T + 'M95\n'), ('percent', '%\n' + T + '%\n')]
    for u in ('INCH,LZ', 'INCH,TZ', 'METRIC,LZ', 'METRIC,TZ', 'METRIC,LZ,000.000', 'METRIC,TZ,000.000', 'METRIC,TZ,0000.00', 'INCH,TZ,00.0000', 'M71', 'M72', 'M71\nINCH,TZ',
              'METRIC,TZ\nM72', 'FMAT,1', 'FMAT,2', 'FMAT,1\nMETRIC,TZ,000.000', 'METRIC,LZ,0000.00\nFMAT,2', ';FILE_FORMAT=3:3', ';FILE_FORMAT=4:2\nMETRIC,TZ', 'VER,1', 'VER,2\nFMAT,1\nM71'):
        out.append(('units ' + u.replace('\n', ';'), 'M48\n' + u + '\n' + T + '%\n'))
    out += [('notation ' + n.replace('\n', ';'), 'M48\n' + T + n + '\n%\n') for n in ('G90', 'ICI,OFF', 'ICI,ON', 'ICI,ON\nICI,OFF', 'ICI,ON\nG90', 'G90\nICI,ON')]
    out.append(('comments', 'M48\n; one, two;three\n;\n;TYPE=PLATED\nT1C0.1\nT2C0.25\n;TYPE=NON_PLATED\nT3C0.0313\n; more\n%\n; after\n'))
    out.append(('unknown', 'M48\nDETECT,ON\nATC,ON\nT1,OFF\n' + T + 'M47,text\n%\nG93X0Y0\nM25\n'))
    out.append(('modes', 'M48\nVER,1\n' + T + 'F080\n%\nG05\nG40\nG41\nG42\nM15\nM16\nM17\n'))
    out.append(('tools', 'M48\nFMAT,2\nT3C0.0313F100.5S40.5\nT01C1.5\nT2B1.5C0.25F2.25H30.\n%\n'))
    fs = {'C': '0.125', 'F': '80.25', 'B': '12.5', 'H': '25.0', 'Z': '-0.0125', 'S': '65.5'}
    for k in range(6):
        names = 'CFBHZS'[k:] + 'CFBHZS'[:k]
        for r in (6, 2, 1):
            d = ''.join(c + fs[c] for c in ([c for c in names if c == 'C'] + list(names))[:r] if c != 'C') if r < 6 else ''.join(c + fs[c] for c in names if c != 'C')
            out.append(('tool ' + d, 'M48\nT1C0.1%s\nT2%sC0.25\nT3C0.3\n%%\n' % (d, d)))
    out.append(('tool speed', 'M48\nT1C0.1S150.5\nT2C0.2S99.999\nT3C0.3S100.0\n%\n'))
    out.append(('tool diameters', 'M48\nINCH,LZ\nT1C0.0001\nT2C12.3456\nT3C1.\n%\n'))
    com = '; Holesize %d. = 40.000000 Tolerance = +3.000000/-2.000000 %s MILS Quantity = 7\n'
    out.append(('tool comments', 'M48\n' + com % (1, 'PLATED') + com % (2, 'NON_PLATED') + 'T1C0.1\nT2C0.2\nT3C0.3\n%\n'))
    out.append(('comment tools', 'M48\nM71\n' + com % (1, 'PLATED') + com % (2, 'OPTIONAL') + com % (3, 'NON_PLATED') + '%\n'))
    out.append(('no tools', 'M48\nINCH,LZ\n%\n'))
    out.append(('no tools metric', 'M48\nVER,1\nMETRIC,TZ\nM95\n'))
    out.append(('one tool', 'M48\nINCH,LZ\nT1C0.1\n%\n'))
    out.append(('header comment', ';HEADER:\n' + T + '%\n'))
    return out


def bodies():
    n = itertools.count(1)

    def v():
        return '%05d' % (next(n) * 7 % 99991)

    def xy():
        return 'X' + v() + 'Y' + v()
    step = {'hit': lambda: xy(), 'x': lambda: 'X' + v(), 'y': lambda: 'Y' + v(), 'neg': lambda: 'X-%sY+%s' % (v(), v()), 'dec': lambda: 'X1.25Y-.5', 'same': lambda: 'X00400Y00500',
            'repeat': lambda: 'R3X%sY%s' % (v(), v()), 'repeatx': lambda: 'R2X' + v(), 'repeaty': lambda: 'R1Y' + v(), 'slot': lambda: xy() + 'G85' + xy(), 'slotx': lambda: xy() + 'G85X' + v(),
            'sloty': lambda: 'Y' + v() + 'G85' + xy(), 'zero slot': lambda: 'X00400Y00500G85X00400Y00500', 'rout': lambda: 'G00%s\nM15\nG01%s\nX%s\nM16\nG05' % (xy(), xy(), v()),
            'rout up': lambda: 'G00%s\nG01%s\nM17\nG05' % (xy(), xy()), 'split': lambda: 'G00\n%s\nM15\nG01\n%s\nG05' % (xy(), xy()), 'comment': lambda: '; T9 note', 'unknown': lambda: 'M25',
            'T1': lambda: 'T1', 'T2': lambda: 'T02', 'T3': lambda: 'T3', 'T0': lambda: 'T0', 'comp': lambda: 'T0203', 'G90': lambda: 'G90', 'ICI': lambda: 'ICI,ON', 'F': lambda: 'F090'}
    only = {'slot', 'slotx', 'sloty', 'zero slot'}
    out = []
    names = sorted(step)
    seqs = [('T2', a, b, 'hit') for a in names for b in names]
    seqs += [('T1', 'hit', 'T2', 'hit', 'T3', 'hit', 'T1', 'hit'), ('T3', 'same', 'same', 'T1', 'same', 'T3', 'same'), ('T3', 'T2', 'hit', 'T1', 'hit', 'x', 'y', 'repeat'), ('T1', 'T2'), (), ('T2',),
             ('T1', 'slot', 'T2', 'rout', 'T1', 'slot', 'rout', 'hit'), ('T1', 'ICI', 'hit', 'T2', 'hit', 'G90', 'hit'), ('comp', 'hit', 'x'), ('hit',), ('hit', 'T2', 'hit'), ('x', 'y', 'repeat', 'hit'), ('comment', 'hit'),
             ('rout', 'T3', 'hit'), ('ICI', 'hit', 'T3', 'hit'), ('hit', 'hit', 'ICI', 'hit'), ('T0', 'hit')]
    for s in seqs:
        inc = False
        ok = True
        for k in s:
            inc = k == 'ICI' or inc and k != 'G90'
            ok &= not (inc and k in only)
        if ok:
            out.append((' '.join(s), ''.join(step[k]() + '\n' for k in s), any(k in only for k in s), s))
    return out


def facts(L, f):
    tools = L.get(f, 'tools')
    t = {}
    for num in L.items(tools):
        o = L.I.bm.getitem(tools, num)
        t[num] = tuple(L.get(o, a) for a in TOOL)
    hits = {}
    for h in hits_of(L, f):
        hits.setdefault(h[0], []).append(h[1:])
    s = L.get(f, 'settings')
    return t, hits, (L.get(s, 'units'), L.get(s, 'zeros'), value(L, L.get(s, 'format')))


def write(L, f):
    del L.I.st.events[:]
    L.call(f, 'write', 'out.drl')
    hs = [e[1] for e in L.I.st.events if e[0] == 'open']
    assert len(hs) == 1 and hs[0][0] == 'out.drl', 'files opened: %s' % (hs,)
    return ''.join(L.items(L.get(hs[0][2], 'out')))


def decimals(v, n):
    return round(v, n) if isinstance(v, float) else v


def run(O, thorough):
    L = Lab(['gerber.excellon', 'gerber.cam'], stubs=STUBS)
    where = L.where(X + 'ExcellonFile', 'write')
    heads, bods = headers(), bodies()
    jobs = []
    for i, h in enumerate(heads):
        inc = h[0] in ('notation ICI,ON', 'notation G90;ICI,ON')
        for j, b in enumerate(bods):
            if inc and b[2]:
                continue
            free = b[3][:1] not in (('T1',), ('T2',), ('T3',), ('comp',))     # starts without a tool
            if free and (h[0].startswith(('no tools', 'comment tools')) or b[3] and b[3][0] == 'T0'):
                continue
            if thorough or i == 0 or j >= len(bods) - 20 or (i * 7 + j) % 23 == 0:
                jobs.append((h, b, 'as is'))
                if i == 0 or thorough:
                    jobs.append((h, b, 'offset'))
            elif (i + j) % 41 == 0:
                jobs.append((h, b, 'offset'))

    def one(job):
        h, b, var = job
        roundtrip(O, L, '%s:%s:%s' % (var, h[0], b[0]), h[1] + b[1] + ('M30\n' if hash_(b[0]) % 2 else ''), var, where)
    parallel(O, jobs, one)
    statements(O, L)


def roundtrip(O, L, key, txt, var, where):
    L.fresh()
    C.reset()
    box = {}
    dx, dy = 0.25, -1.5

    def loads(t, init):
        s = L.new('gerber.cam:FileSettings', units=init[0], zeros=init[1], format=init[2])
        return L.I.call(L.obj_from(X + 'loads'), [t], {'settings': s})

    def go():
        f = loads(txt, INIT)
        box['a'] = facts(L, f)
        if var == 'offset':
            L.call(f, 'offset', dx, dy)
        box['t'] = write(L, f)
        g = loads(box['t'], box['a'][2])
        box['b'] = facts(L, g)
        box['t2'] = write(L, g)
        box['c'] = facts(L, loads(box['t'], INIT))
    oc = openable(L.run(go))
    O.note(L)
    L.I.call_log.clear()
    if not O.outcome(key, oc, where, 'writing a drill file and reading it back'):
        return
    (t, hits, sett), shown = box['a'], txt.replace('\n', ' / ')
    if var == 'offset':
        hits = dict((n, [(h[0],) + tuple((p[0] + dx, p[1] + dy) for p in h[1:]) for h in hs]) for n, hs in hits.items())
    for k, what in (('b', 'with its number format'), ('c', 'with the format of its header')):
        t2, hits2, sett2 = box[k]
        O.equal('%s:%s:settings' % (key, k), sett2, sett, where, 'units, zero suppression and format, read back %s, of %s' % (what, shown))
        O.equal('%s:%s:tools' % (key, k), tuple(sorted(t2)), tuple(sorted(t)), where, 'tools, read back %s, of %s' % (what, shown))
        for n in t:
            for a, v, w in zip(TOOL, t2.get(n, ()), t[n]):
                if a == 'diameter':
                    v, w = decimals(v, sett[2][1]), decimals(w, sett[2][1])
                O.equal('%s:%s:T%d.%s' % (key, k, n, a), v, w, where, '%s of tool %d, read back %s, of %s' % (a, n, what, shown))
            O.equal('%s:%s:T%d' % (key, k, n), tuple(hits2.get(n, ())), tuple(hits.get(n, ())), where, 'holes and slots of tool %d, read back %s, of %s' % (n, what, shown))
    if not any(k in key for k in (':no tools', ':comment tools', ':one tool')):     # tools may be listed in another order
        O.equal(key + ':again', box['t2'], box['t'], where, 'text of writing again what was read back from %s' % shown)
    ls = box['t'].split('\n')
    O.equal(key + ':end', (tuple(ls[-2:]), [i for i, l in enumerate(ls) if l.startswith('M30')] == [len(ls) - 2]), (('M30', ''), True), where, 'end of the written program of %s' % shown)


def statements(O, L):
    """Statements alone."""
    x, y, u, w = 1.5, -2.25, 0.3125, 7.75

    def cases():
        for a, b in ((x, y), (x, None), (None, y), (0.0, y), (x, 0.0), (0.0, 0.0)):
            for m in (None, 'ROUT', 'LINEAR'):
                yield 'CoordinateStmt', (a, b), {'mode': m} if m else {}, dict(x=a, y=b), 1, 3 if m else 0
            yield 'EndOfProgramStmt', (a, b), {}, dict(x=a, y=b), 1, 0
        for n in (1, 12):
            for a, b in ((x, y), (x, None), (None, y)):
                yield 'RepeatHoleStmt', (n, a, b), {}, dict(count=n, xdelta=a, ydelta=b), 1, 0
        for s in ((x, y), (x, None), (None, y)):
            for e in ((u, w), (u, None), (None, w)):
                yield 'SlotStmt', s + e, {}, dict(x_start=s[0], y_start=s[1], x_end=e[0] if e[0] is not None else s[0], y_end=e[1] if e[1] is not None else s[1]), 1, 0
        for un in ('inch', 'metric'):
            for z in ('leading', 'trailing'):
                for f in (None, (2, 4), (3, 3), (4, 2)):
                    yield 'UnitStmt', (un, z, f), {}, dict(units=un, zeros=z, format=f), 0, 0
            yield 'MeasuringModeStmt', (un,), {}, dict(units=un), 0, 0
        for m in ('on', 'off'):
            yield 'IncrementalModeStmt', (m,), {}, dict(mode=m), 0, 0
        for n in (1, 2):
            yield 'VersionStmt', (n,), {}, dict(version=n), 0, 0
            yield 'FormatStmt', (n,), {}, dict(format=n), 0, 0
        for ts in ([1], [1, 2], [10, 2, 33]):
            yield 'LinkToolStmt', (ts,), {}, dict(linked_tools=tuple(ts)), 0, 0
        for t in ('T1,OFF', 'DETECT,ON', 'M47, some text', 'G93X0Y0'):
            yield 'UnknownStmt', (t,), {}, dict(stmt=t), 0, 0
        for n in (1, 2, 10, 99, 123):
            yield 'ToolSelectionStmt', (n,), {}, dict(tool=n, compensation_index=None), 0, 0
        for n in (1, 2, 10, 99):
            for c in (1, 12, 99):
                yield 'ToolSelectionStmt', (n, c), {}, dict(tool=n, compensation_index=c), 0, 0
        for r in (1, 8, 80, 120, 1200):
            yield 'ZAxisInfeedRateStmt', (r,), {}, dict(rate=r), 0, 0
        for c in ('', ' a note', 'x;y', ' TYPE=PLATED', 'FILE_FORMAT=2:4'):
            yield 'CommentStmt', (c,), {}, dict(comment=c), 0, 0
    for units, fmt, zs in (('inch', (2, 4), 'leading'), ('metric', (3, 3), 'trailing')):
        for cls, args, attrs, want, st, skip in cases():
            key = 'stmt:%s:%s:%s:%s' % (cls, ','.join(show(a) for a in args), attrs.get('mode'), units)
            where = L.where(E + cls, 'to_excellon')
            L.fresh()
            C.reset()

            def go():
                s = settings(L, fmt, zs, units=units)
                o = L.new(E + cls, *[L.list(a) if isinstance(a, list) else a for a in args])
                for a, v in attrs.items():
                    L.set(o, a, v)
                t = L.call(o, 'to_excellon', s)
                g = L.I.call(L.obj_from(E + cls + '.from_excellon'), [t[skip:]] + ([s] if st else []), {})
                return t, dict((a, value(L, L.get(g, a))) for a in want), L.get(g, 'units'), L.call(g, 'to_excellon', s)
            oc = L.run(go)
            O.note(L)
            if not O.outcome(key, oc, where, 'writing and reading %s(%s)' % (cls, ', '.join(show(a) for a in args))):
                continue
            t, got, un, t2 = oc.value
            for a, v in want.items():
                O.equal('%s:%s' % (key, a), got[a], v, where, '%s of %s written as %r and read back' % (a, cls, t))
            if st:
                O.equal(key + ':units', un, units, where, 'units of %s read back' % cls)
            if not attrs and cls != 'SlotStmt':
                O.equal(key + ':again', t2, t, where, 'text of %s read back and written again' % cls)
            if skip:
                O.equal(key + ':mode', t[:3], {'ROUT': 'G00', 'LINEAR': 'G01'}[attrs['mode']], where, 'mode of a written coordinate')
        for cls, t in (('HeaderBeginStmt', 'M48'), ('HeaderEndStmt', 'M95'), ('RewindStopStmt', '%'), ('ZAxisRoutPositionStmt', 'M15'), ('RetractWithClampingStmt', 'M16'), ('RetractWithoutClampingStmt', 'M17'),
                       ('CutterCompensationOffStmt', 'G40'), ('CutterCompensationLeftStmt', 'G41'), ('CutterCompensationRightStmt', 'G42'), ('RouteModeStmt', 'G00'), ('LinearModeStmt', 'G01'),
                       ('DrillModeStmt', 'G05'), ('AbsoluteModeStmt', 'G90')):
            L.fresh()
            oc = L.run(lambda: L.call(L.new(E + cls), 'to_excellon', settings(L, fmt, zs, units=units)))
            if O.outcome('stmt:' + cls, oc, L.where(E + cls, 'to_excellon'), 'writing ' + cls):
                O.equal('stmt:' + cls, oc.value, t, L.where(E + cls, 'to_excellon'), 'text of ' + cls)
        tools(O, L, units, fmt, zs)


def tools(O, L, units, fmt, zs):
    names = ('diameter', 'feed_rate', 'retract_rate', 'max_hit_count', 'depth_offset', 'rpm')
    where = L.where(E + 'ExcellonTool', 'to_excellon')
    for r in range(0, 7):
        for fs in itertools.combinations(names, r):
            key = 'tool:%s:%s' % (units, ','.join(fs))
            L.fresh()
            C.reset()
            vals = dict((n, {'diameter': 0.125, 'rpm': 45500.0}.get(n, 1.75 + len(n))) for n in fs)

            def go():
                s = settings(L, fmt, zs, units=units)
                o = L.new(E + 'ExcellonTool', s, number=7, **vals)
                t = L.call(o, 'to_excellon')
                g = L.I.call(L.obj_from(E + 'ExcellonTool.from_excellon'), [t, s], {})
                return t, dict((a, L.get(g, a)) for a in names + ('number',)), L.call(g, 'to_excellon', s)
            oc = L.run(go)
            O.note(L)
            if O.outcome(key, oc, where, 'writing and reading a tool with ' + ', '.join(fs)):
                for a in names:
                    O.equal('%s:%s' % (key, a), oc.value[1][a], vals.get(a), where, '%s of a tool written as %r and read back' % (a, oc.value[0]))
                O.equal(key + ':number', oc.value[1]['number'], 7, where, 'number of a tool')
                O.equal(key + ':again', oc.value[2], oc.value[0], where, 'text of a tool read back and written again')
