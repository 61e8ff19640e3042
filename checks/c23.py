"""C23 netlists are read record by record."""
import itertools
import math

from sa.lab import *
from sa.par import parallel
from .strs import *

RULE = ('Abstract interpretation of the netlist reader on lines built column by column from symbolic digits: every field, blank or filled to any width, in every unit, with the '
        'line ending after any field; parameters, outlines, conductors, adjacencies and continuations alike; the lists, nets, primitives and rendering of the netlist are '
        'compared with the records it was read from.')
ASSUMPTIONS = ['columns as in IPC-D-356']
I356 = 'gerber.ipc356:'
FEATURE = {'317': 'through-hole', '327': 'smt', '367': 'non-plated-tooling-hole'}
ACCESS = ['both', 'top', 'layer2', 'layer3', 'layer4', 'layer5', 'layer6', 'layer7', 'bottom']
MASK = {'0': 'none', '1': 'primary side', '2': 'secondary side', '3': 'both'}
UNITS = {None: ('inch', 'degrees'), 'CUST': ('inch', 'degrees'), 'CUST 0': ('inch', 'degrees'), 'CUST 1': ('metric', 'degrees'), 'CUST 2': ('inch', 'radians')}
LAST = ['access', 'x', 'y', 'rx', 'ry', 'rot', 'sm', 'opt']
ABSENT = 'absent'


def digs(label, n, width, pad=' ', sign=''):
    """A right justified number of n symbolic digits, as text and value."""
    ds = [dig('%s%d' % (label, i), nonzero=(i == 0 and n > 1)) for i in range(n)]
    v = 0
    for d in ds:
        v = Poly.of(v) * 10 + d.val
    t = (sign + pad * (width - n - len(sign)) if pad == '0' else pad * (width - n - len(sign)) + sign)
    return [t] + ds, (Poly.of(v) * (-1 if sign == '-' else 1))


BASE = {'code': '317', 'name': 'GND', 'id': 'R40', 'dash': '-', 'pin': '1', 'loc': ' ', 'dia': (3, ' '), 'plated': 'P', 'access': 0, 'x': (5, ' ', ''), 'y': (4, '0', ''),
        'rx': (3, ' '), 'ry': (4, ' '), 'rot': (3, ' '), 'sm': '3', 'opt': 'abcd', 'last': 'sm'}


def line(r, units):
    """Text of a record and the attributes it must be read into."""
    scale = 0.0001 if units[0] == 'inch' else 0.001
    a = {'feature_type': FEATURE[r['code']], 'net_name': r['name'], 'id': r['id'], 'pin': r['pin'].strip() or None, 'location': 'middle' if r['loc'] == 'M' else 'end'}
    out = [r['code'], r['name'].ljust(14), '   ', r['id'].ljust(6), r['dash'], r['pin'].ljust(4), r['loc']]
    if r['dia']:
        t, v = digs('d', r['dia'][0], 4, r['dia'][1])
        out += ['D'] + t
        a['hole_diameter'] = v * scale
    else:
        out += ['     ']
    out += [r['plated']]
    a['plated'] = r['plated'] == 'P'
    n = LAST.index(r['last'])
    out += ['A%02d' % r['access']]
    a['access'] = ACCESS[r['access']]
    for k, (lead, key, attr, w) in enumerate([('X', 'x', 'x_coord', 7), ('Y', 'y', 'y_coord', 7), ('X', 'rx', 'rect_x', 4), ('Y', 'ry', 'rect_y', 4), ('R', 'rot', 'rect_rotation', 3)]):
        if n < k + 1:
            break
        if r[key] is None:
            out += [' ' * (w + 1)] if r.get('noletter') else [lead + ' ' * w]
            continue
        t, v = digs(key, r[key][0], w, r[key][1], r[key][2] if len(r[key]) > 2 else '')
        out += [lead] + t
        a[attr] = v * scale if key != 'rot' else v if units[1] == 'degrees' else v * (180 / math.pi)
    if n >= LAST.index('sm'):
        out += [' S' + r['sm']]
        a['soldermask_info'] = MASK.get(r['sm'])
    if n >= LAST.index('opt'):
        out += [' ' + r['opt']]
        a['optional_info'] = r['opt']
    return text(*out), a


def records(thorough):
    out = []

    def add(**k):
        out.append(dict(BASE, **k))
    variants = {
        'code': list(FEATURE), 'name': ['', 'M D P', 'VIA-R1 1 M D', 'A', 'ABCDEFGHIJKLMN', 'N$1', '+5V', 'A-B', 'NNAME1X'], 'id': ['VIA', 'M1', 'DDDDDD', 'D-M', 'ABCDEF', 'COMMUNICATION', 'TERMINAL', ''], 'dash': ['-', ' '],
        'pin': ['1', 'A12', '', '+', '-', 'ABCD', 'M2', 'MD', 'D1', 'PAXM', '12-M', 'X1Y2', '  M'], 'loc': [' ', 'M'], 'dia': [None, (1, ' '), (4, ' '), (2, '0'), (1, '0')], 'plated': ['P', 'U', ' '], 'access': list(range(9)),
        'x': [(1, ' ', ''), (7, ' ', ''), (3, '0', ''), (4, ' ', '-'), (6, '0', '-'), (2, '0', '+')], 'y': [(1, ' ', ''), (7, ' ', ''), (3, '0', ''), (4, ' ', '-'), (6, '0', '-'), (2, '0', '-')],
        'rx': [None, (1, ' '), (4, ' '), (2, '0')], 'ry': [None, (1, ' '), (4, ' '), (2, '0')], 'rot': [None, (1, ' '), (2, '0'), (2, ' ')], 'sm': ['0', '1', '2', '3'], 'last': LAST}
    for f, vs in variants.items():
        for v in vs:
            add(**{f: v})
            for last in LAST:
                add(**dict({'last': last}, **{f: v}))
    pairs = [('id', 'dash'), ('id', 'x'), ('id', 'y'), ('dash', 'x'), ('pin', 'dash'), ('id', 'pin'), ('rx', 'ry'), ('dia', 'loc'), ('dia', 'id'), ('code', 'dia'), ('rot', 'sm'), ('access', 'plated')]
    if thorough:
        pairs = list(itertools.combinations(variants, 2))
    for f, g in pairs:
        for v, w in itertools.product(variants[f], variants[g]):
            add(**{f: v, g: w})
            add(**dict({'last': 'y'}, **{f: v, g: w}))
    seen, uniq = set(), []
    for r in out:
        if len(r['id']) > 6:
            r['dash'] = '-'
        if r['rx'] is None or r['ry'] is None or r['rot'] is None:
            # trailing blanks are no part of a line
            for k in ('rot', 'ry', 'rx'):
                if r['last'] == k and r[k] is None:
                    r['last'] = LAST[LAST.index(k) - 1]
        if repr(sorted(r.items(), key=lambda z: z[0])) not in seen:
            seen.add(repr(sorted(r.items(), key=lambda z: z[0])))
            uniq.append(r)
    return uniq


ATTRS = ['feature_type', 'net_name', 'id', 'pin', 'location', 'hole_diameter', 'plated', 'access', 'x_coord', 'y_coord', 'rect_x', 'rect_y', 'rect_rotation', 'soldermask_info', 'optional_info']


def attrs(L, rec):
    have = L.attrs(rec)
    return {a: have.get(a, ABSENT) for a in ATTRS}


def name_of(r):
    return ', '.join('%s %s' % (k, r[k]) for k in r if r[k] != BASE.get(k)) or 'plain'


def record(O, L, r, u):
    key = 'test record %s in %s' % (name_of(r), u)
    where = L.where(I356 + 'IPC356_TestRecord', 'from_line')
    t, want = line(r, UNITS[u])
    L.fresh()
    oc = L.run(lambda: attrs(L, L.I.call(L.get(L.obj_from(I356 + 'IPC356_TestRecord'), 'from_line'), [t, L.new('gerber.cam:FileSettings', units=UNITS[u][0], angle_units=UNITS[u][1])], {})))
    if not O.outcome(key, oc, where, 'reading ' + key):
        return
    for a in ATTRS:
        O.equal('%s:%s' % (key, a), oc.value[a], want.get(a, ABSENT), where, '%s of %s' % (a, key))


def point(label, x=True, y=True, neg=''):
    """A coordinate pair and its numbers (None where it is left out)."""
    out, vals = [], []
    for k, on in (('X', x), ('Y', y)):
        if not on:
            vals.append(None)
            continue
        t, v = digs(label + k, 3, 3)
        out += [k, '-' if k in neg else ''] + t[1:]
        vals.append(v * -1 if k in neg else v)
    return out, vals


def modal(points, scale):
    x = y = 0
    out = []
    for px, py in points:
        x = x if px is None else px
        y = y if py is None else py
        out.append((Poly.of(x) * scale, Poly.of(y) * scale))
    return tuple(out)


SHAPES = [[(1, 1, '')], [(1, 1, ''), (1, 0, ''), (0, 1, '')], [(1, 1, 'X'), (0, 1, 'Y'), (1, 0, 'X'), (1, 1, 'XY')], [(1, 0, ''), (0, 1, ''), (1, 1, '')], [(0, 1, ''), (1, 0, '')]]


def chain(spec, label):
    ts, vs = [], []
    for i, (x, y, neg) in enumerate(spec):
        t, v = point('%s%d' % (label, i), x, y, neg)
        ts.append(t)
        vs.append(v)
    return ts, vs


def spaced(ts, sep=' '):
    out = []
    for t in ts:
        out += [sep] + t
    return out


def polylines(O, L):
    """Outlines and conductors."""
    for n, spec in enumerate(SHAPES):
        for units in ('inch', 'metric'):
            scale = 0.0001 if units == 'inch' else 0.001
            for name in ('BOARD_EDGE', 'PANEL_EDGE', 'ABCDEFGHIJKLMN'):
                for sep in (' ', '   '):
                    key = 'outline %s %d in %s%s' % (name, n, units, ' wide' if len(sep) > 1 else '')
                    where = L.where(I356 + 'IPC356_Outline', 'from_line')
                    L.fresh()
                    ts, vs = chain(spec, 'p')
                    oc = L.run(lambda: L.I.call(L.get(L.obj_from(I356 + 'IPC356_Outline'), 'from_line'), [text('389' + name.ljust(14) + '   ', *spaced(ts, sep)), L.new('gerber.cam:FileSettings', units=units)], {}))
                    if O.outcome(key, oc, where, 'reading ' + key):
                        O.equal(key + ':type', L.get(oc.value, 'type'), name, where, 'type of ' + key)
                        O.equal(key + ':points', tuple(L.items(L.get(oc.value, 'points'))), modal(vs, scale), where, 'points of ' + key)
            for m, other in enumerate(SHAPES[:4]):
                for ap in ((1, 0), (1, 1)):
                    key = 'conductor %d %d with aperture %s in %s' % (n, m, ap, units)
                    where = L.where(I356 + 'IPC356_Conductor', 'from_line')
                    L.fresh()
                    at, av = point('a', *ap)
                    ts, vs = chain(spec, 'p')
                    us, ws = chain(other, 'q')
                    t = text('378' + 'N$1'.ljust(14) + '  0%d ' % (n + 1), at, *(spaced(ts) + ['*'] + spaced(us)))
                    oc = L.run(lambda: L.I.call(L.get(L.obj_from(I356 + 'IPC356_Conductor'), 'from_line'), [t, L.new('gerber.cam:FileSettings', units=units)], {}))
                    if O.outcome(key, oc, where, 'reading ' + key):
                        O.equal(key + ':net', L.get(oc.value, 'net_name'), 'N$1', where, 'net of ' + key)
                        O.equal(key + ':layer', L.get(oc.value, 'layer'), n + 1, where, 'layer of ' + key)
                        O.equal(key + ':aperture', L.get(oc.value, 'aperture'), tuple(None if v is None else v * scale for v in av), where, 'aperture of ' + key)
                        O.equal(key + ':shapes', L.get(oc.value, 'shapes'), (modal(vs, scale), modal(ws, scale)), where, 'shapes of ' + key)


# the pieces of netlists: line and the record it must become
def rec(net='GND', ident='R1', **k):
    r = dict(BASE, name=net, id=ident, **k)
    return 'test', r


FILES = [
    [('comment', 'C  made by x', 'made by x'), ('param', 'P  JOB  A B   C ', ('JOB', 'A B C')), rec(), ('end', '999')],
    [('units', 'CUST 1'), rec(), ('units', 'CUST 0'), rec(ident='VIA'), ('units', 'CUST 2'), rec(), ('units', 'CUST'), rec(), ('units', 'CUST 1'), ('end', '999')],
    [('units', 'CUST 2'), rec(), ('end', '999'), ('comment', 'C', '')],
    [('param', 'P  NNAME1 LONG_NAME_OF_NET', ('NNAME1', 'LONG_NAME_OF_NET')), ('param', 'P  NNAME12 OTHER', ('NNAME12', 'OTHER')), rec('NNAME1'), rec('NNAME12'), rec('NNAME2'), rec('XNNAME1'), rec('NNAME'),
     ('param', 'P  NNAME2 SECOND', ('NNAME2', 'SECOND')), rec('NNAME2', 'VIA'), ('param', 'P  NNAME1 AGAIN', ('NNAME1', 'AGAIN')), rec('NNAME1')],
    [rec('A'), rec('B'), rec('C'), rec('A', 'VIA'), rec('D'), ('adj', 'A', ['B', 'C'])],
    [rec('A'), rec('B'), rec('C'), rec('D'), ('adj', 'A', ['B']), ('adj', 'C', ['A', 'D']), ('adj', 'A', ['D'])],
    [rec('B'), ('adj', 'A', ['B']), ('adj', 'E', ['F']), rec('A'), rec('C')],
    [rec('A'), ('adj', 'A', ['B']), ('adj', 'A', ['C', 'D']), ('adj', 'X', ['A'])],
    [('outline', [(1, 1, ''), (1, 0, '')], 1), rec('A', 'VIA'), ('outline', [(1, 1, ''), (0, 1, '')], 2), rec('B', 'VIA')],
    [('units', 'CUST 1'), ('outline', [(1, 1, ''), (1, 0, ''), (0, 1, '')], 3), ('adjlong', 'A', ['B', 'C', 'D'], 2), rec('A', 'J1'), rec('B', 'J1'), rec('C', 'J2')],
    [('skip', '391 something'), ('comment', 'C  P  UNITS CUST 1', 'P  UNITS CUST 1'), rec(code='367', access=1), ('skip', ''), rec(code='327', access=8), rec(access=3), rec(access=0)],
    [('comment', 'C  only', 'only')],
    [('param', 'P  NNAME1 A LONG NAME', ('NNAME1', 'A LONG NAME')), rec('NNAME1'), ('end', '999'), rec('NNAME1', 'VIA'), ('param', 'P  NNAME1 B  C', ('NNAME1', 'B C')), rec('NNAME1'), ('units', 'CUST 1'), ('end', '999'), rec('NNAME1')],
    [('outline', [(1, 1, ''), (1, 0, ''), (0, 1, '')], 2), ('adjlong', 'A', ['B', 'C', 'D'], 2, '  '), rec('A'), ('adjlong', 'A', ['E', 'FF'], 1, ' '), ('adjlong', 'A', ['G', 'HIJ'], 1, '')],
    [rec(ident=i, net=n) for i, n in (('VIA', 'A'), ('VIA1', 'VIA'), ('VIAS', ''), ('via', 'B'), ('XVIA', 'A'), ('', 'C'), ('VIA', ''), ('COMMUNICATION', 'A'), ('COMMUNIC', 'B'), ('via', 'B'))],
]


for _u in itertools.product(('CUST', 'CUST 0', 'CUST 1', 'CUST 2'), repeat=3):
    FILES.append([x for u in _u for x in (('units', u), rec())] + [('end', '999')])


def netlist(O, L, n, end, after=''):
    """Read a whole netlist and compare all that it gives."""
    key = 'netlist %d%s' % (n, '' if end == '\n' else ' with other line ends' if end else ' without last line end') + (' after another' if after else '')
    where = L.where(I356 + 'IPCNetlistParser', '_parse_line')
    wn = lambda a: L.where(I356 + 'IPCNetlist', a)
    L.fresh()
    nl = end or '\n'
    units, out, want, nn = ('inch', 'degrees'), [], [], {}
    for i, e in enumerate(FILES[n]):
        kind = e[0]
        if kind == 'units':
            units = UNITS[e[1]]
            out += ['P  UNITS %s' % e[1], nl]
            want.append(('IPC356_Parameter', {'parameter': 'UNITS', 'value': e[1]}))
        elif kind == 'comment':
            out += [e[1], nl]
            want.append(('IPC356_Comment', {'comment': e[2]}))
        elif kind == 'param':
            out += [e[1], nl]
            want.append(('IPC356_Parameter', {'parameter': e[2][0], 'value': e[2][1]}))
            if e[2][0].startswith('NNAME'):
                nn[e[2][0]] = e[2][1]
        elif kind == 'skip':
            out += [e[1], nl]
        elif kind == 'end':
            out += [e[1], nl]
            want.append(('IPC356_EndOfFile', {}))
        elif kind == 'test':
            t, a = line(e[1], units)
            a['net_name'] = nn.get(a['net_name'], a['net_name'])
            out += pieces(t) + [nl]
            want.append(('IPC356_TestRecord', a))
        elif kind == 'adj':
            out += ['379' + ' '.join([e[1]] + e[2]), nl]
            want.append(('IPC356_Adjacency', {'net': e[1], 'adjacent_nets': tuple(e[2])}))
        elif kind == 'adjlong':
            if len(e) > 4:
                head, tail = '379' + ' '.join([e[1]] + e[2][:e[3]]) + e[4], ' '.join(e[2][e[3]:])
                out += [head, nl, '079', tail, nl] if e[4] else [head + ' ' + tail[:1], nl, '079', tail[1:], nl]
            else:
                out += ['379' + ' '.join([e[1]] + e[2][:e[3]]), nl, '079 ' + ' '.join(e[2][e[3]:]), nl]
            want.append(('IPC356_Adjacency', {'net': e[1], 'adjacent_nets': tuple(e[2])}))
        elif kind == 'outline':
            ts, vs = chain(e[1], 'o%d' % i)
            k = e[2]
            out += ['389BOARD_EDGE        '] + spaced(ts[:k]) + [nl]
            if ts[k:]:
                out += ['089      '] + spaced(ts[k:]) + [nl]
            want.append(('IPC356_Outline', {'type': 'BOARD_EDGE', 'points': modal(vs, 0.0001 if units[0] == 'inch' else 0.001)}))
    if not end:
        out.pop()
    data = text(*out)

    def listed(v):
        got = []
        for r in L.items(v):
            d = {}
            for a, x in L.attrs(r).items():
                if isinstance(x, Ref) and a in ('points', 'adjacent_nets'):
                    x = tuple(L.items(x))
                d[a] = x
            got.append((L.cls_of(r), d))
        return got
    box = {}

    def go():
        if after:
            L.I.call(L.obj_from(I356 + 'loads'), [after, 'y.ipc'], {})
        f = box['f'] = L.I.call(L.obj_from(I356 + 'loads'), [data, 'x.ipc'], {})
        out = {'records': listed(L.get(f, 'statements'))}
        for a in ('comments', 'parameters', 'test_records', 'outlines', 'adjacency_records'):
            out[a] = listed(L.get(f, a))
        out['components'] = L.items(L.get(f, 'components'))
        out['vias'] = L.items(L.get(f, 'vias'))
        out['nets'] = [(L.get(x, 'name'), L.items(L.get(x, 'adjacent_nets'))) for x in L.items(L.get(f, 'nets'))]
        s = L.get(f, 'settings')
        out['units'] = (L.get(s, 'units'), L.get(s, 'angle_units'))
        out['filename'] = L.get(f, 'filename')
        out['primitives'] = [(L.cls_of(p), L.get(p, 'position'), L.get(p, 'net_name'), L.get(p, 'layer')) for p in L.items(L.get(f, 'primitives'))]
        for side in (None, 'both', 'top', 'bottom'):
            for name in (None, 'pic.svg'):
                ctx = L.new('recorder:Recorder')
                L.call(f, 'render', ctx, **dict({} if side is None else {'layer': side}, **({} if name is None else {'filename': name})))
                out['rendered %s %s' % (side, name)] = [tuple(x[:2]) for x in L.items(L.get(ctx, 'calls')) if x[0] not in ('pre', 'post')]
        out['prims'] = L.items(L.get(f, 'primitives'))
        return out
    oc = L.run(go)
    if not O.outcome(key, oc, where, 'reading ' + key):
        return
    got = oc.value

    def same(name, got, want, w):
        O.equal('%s:%s' % (key, name), len(got), len(want), w, 'number of %s of %s' % (name, key))
        for i, (g, x) in enumerate(zip(got, want)):
            k = '%s:%s:%d' % (key, name, i)
            O.equal(k, g[0].rsplit(':', 1)[-1].rsplit('.', 1)[-1], x[0], w, 'kind of number %d of %s of %s' % (i, name, key))
            for a in sorted(set(g[1]) | set(x[1])):
                O.equal('%s:%s' % (k, a), g[1].get(a, ABSENT), x[1].get(a, ABSENT), w, '%s of number %d of %s of %s' % (a, i, name, key))
    same('records', got['records'], want, where)
    for a, c in (('comments', 'IPC356_Comment'), ('parameters', 'IPC356_Parameter'), ('test_records', 'IPC356_TestRecord'), ('outlines', 'IPC356_Outline'), ('adjacency_records', 'IPC356_Adjacency')):
        same(a, got[a], [w for w in want if w[0] == c], wn(a))
    tests = [w[1] for w in want if w[0] == 'IPC356_TestRecord']
    adj = [w[1] for w in want if w[0] == 'IPC356_Adjacency']
    O.equal(key + ':components', tuple(sorted(set(got['components']) - {''}) + [c for c in got['components'] if got['components'].count(c) > 1]), tuple(sorted(set(t['id'] for t in tests) - {'VIA', ''})), wn('components'), 'components of ' + key)
    O.equal(key + ':vias', tuple(got['vias']), tuple(t['id'] for t in tests if t['id'] == 'VIA'), wn('vias'), 'vias of ' + key)
    nets = {}
    for t in tests:
        nets[t['net_name']] = set(x for a in adj for x in (a['adjacent_nets'] if a['net'] == t['net_name'] else [a['net']] if t['net_name'] in a['adjacent_nets'] else []))
    O.equal(key + ':nets', tuple(sorted((a, tuple(sorted(b))) for a, b in got['nets'])), tuple(sorted((a, tuple(sorted(b))) for a, b in nets.items())), wn('nets'), 'nets of ' + key)
    O.equal(key + ':units', got['units'], units, wn('settings'), 'units of ' + key)
    O.equal(key + ':filename', got['filename'], 'x.ipc', where, 'file name of ' + key)
    O.equal(key + ':primitives', tuple((c.rsplit(':', 1)[-1].rsplit('.', 1)[-1],) + tuple(r) for c, *r in got['primitives']), tuple(('TestRecord', (t['x_coord'], t['y_coord']), t['net_name'], t['access']) for t in tests),
            wn('__init__'), 'primitives of ' + key)
    for side in (None, 'both', 'top', 'bottom'):
        for name in (None, 'pic.svg'):
            shown = [p for p, t in zip(got['prims'], tests) if t['access'] in (('top', 'bottom', 'both') if side in (None, 'both') else (side, 'both'))]
            O.equal('%s:rendered %s %s' % (key, side, name), got['rendered %s %s' % (side, name)] == [('test_record', p) for p in shown] + ([('dump', name)] if name else []), True, wn('render'),
                    'test points of the %s side of %s are rendered' % (side, key))


def run(O, thorough):
    from .picture import project
    L = Lab(['gerber.ipc356', 'gerber.cam', 'gerber.primitives', 'recorder'], project=project())
    rs = records(thorough)
    rj = [(r, u) for r in rs for u in (('CUST 0', 'CUST 1', 'CUST 2') if thorough or r['last'] in ('sm', 'y') else ('CUST 0',))]
    before = 'P  UNITS CUST 2\nP  NNAME1 OLD\nP  NNAME2 OLDER\n317A                VIA         D  24PA00X  14900Y   1450X 396Y 396\n379A B\n999'
    jobs = [('poly',)] + [('file', n, '\n', before) for n in range(len(FILES))] + [('file', n, e) for n in range(len(FILES)) for e in ('\n', '\r\n', '')] + [('rec', rj[i::16]) for i in range(16)]

    def work(job):
        if job[0] == 'poly':
            polylines(O, L)
        elif job[0] == 'file':
            netlist(O, L, *job[1:])
        else:
            for r, u in job[1]:
                record(O, L, r, u)
        O.note(L)
        L.I.call_log.clear()
    parallel(O, jobs, work)
