"""C26 extents, counts, path lengths and reports of files."""
import itertools

from sa.lab import *
from sa.par import parallel
from .c11 import openable

RULE = ('Abstract interpretation of bounds, size, bounding_box, primitives, hit_count, path_length, update_tool and report on files built from parts: '
        'extents of up to three parts in every order of their x and y coordinates, on both sides of zero and with coordinates left out; holes and slots of several '
        'tools with coordinates and diameters of unknown value for path lengths and primitives; reports field by field.')
ASSUMPTIONS = ['extents only compare coordinates, so that every order of them stands for all values; coordinates lie below a million',
               'bounding boxes of single primitives are C07, hits and counts that reading gives are C12']
E = 'gerber.excellon:'
T = 'gerber.excellon_statements:ExcellonTool'
P = 'gerber.primitives:'
REGIMES = ((1.5, 2.25, 8.0), (-9.5, -0.5, -0.125), (-3.0, 0.0, 0.25), (120.5, 4000.0, 99999.5), (-99999.5, -77.0, 12345.0))


def settings(L, units='inch', fmt=(2, 4), notation='absolute'):
    return L.new('gerber.cam:FileSettings', notation=notation, units=units, zero_suppression='trailing', format=fmt)


def gerber(L, stmts=(), prims=(), units='inch'):
    return L.new('gerber.rs274x:GerberFile', L.list(list(stmts)), settings(L, units), L.list(list(prims)), L.list([]), None)


def excellon(L, tools, hits, st=None, name=None):
    st = st if st is not None else settings(L)
    return L.new(E + 'ExcellonFile', L.list([]), L.I.new_dict([(L.get(t, 'number'), t) for t in tools]), L.list(list(hits)), st, name)


def tool(L, n, d, units='inch', **kw):
    return L.new(T, settings(L, units), number=n, diameter=d, **kw)


def orders():
    """[(xs, ys)] in every order of three coordinates; also fewer."""
    for k, reg in enumerate(REGIMES):
        for px in itertools.permutations(range(3)):
            for py in itertools.permutations(range(3)):
                other = REGIMES[(k + 1 + px[0] + py[1]) % len(REGIMES)]
                yield [reg[i] for i in px], [other[i] for i in py]
    for reg in REGIMES:
        yield [reg[0]], [reg[2]]
        yield [reg[2], reg[1]], [reg[0], reg[1]]
        yield [reg[1], reg[1]], [reg[2], reg[2]]


def box(xs, ys):
    return ((min(xs), max(xs)), (min(ys), max(ys)))


def entries(L, d):
    return [(k, v) for k, v in L.I.st.get(d).d.values()]


def ask(O, L, key, build, attr, want, where, what):
    L.fresh()

    def go():
        return L.get(build(), attr)
    oc = L.run(go)
    O.note(L)
    L.I.call_log.clear()
    if O.outcome(key, oc, where, what):
        O.equal(key, oc.value, want, where, what)


def extents(O, L):
    S = 'gerber.gerber_statements:CoordStmt'
    wb = L.where('gerber.rs274x:GerberFile', 'bounds')
    ws = L.where('gerber.rs274x:GerberFile', 'size')
    ops = ('D02', 'D01', 'D03', None)

    def stmt(x, y, k):
        return L.new(S, ('G01', None, 'G02')[k % 3], x, y, 5000.0 if k % 3 == 2 else None, -5000.0 if k % 3 == 2 else None, ops[k % 4], settings(L))

    def bounds(job):
        n, (xs, ys) = job
        b = box(xs, ys)
        for style in ('both', 'apart', 'shifted'):
            def build():
                out = [L.new('gerber.gerber_statements:CommentStmt', 'X999999Y-999999')]
                if style == 'both':
                    out += [stmt(x, y, k) for k, (x, y) in enumerate(zip(xs, ys))]
                elif style == 'apart':
                    out += [stmt(x, None, k) for k, x in enumerate(xs)] + [stmt(None, None, 0)] + [stmt(None, y, k + 1) for k, y in enumerate(ys)]
                else:
                    out += [stmt(None, ys[0], 1)] + [stmt(x, None if k + 1 >= len(ys) else ys[k + 1], k) for k, x in enumerate(xs)]
                out.append(L.new('gerber.gerber_statements:ApertureStmt', 10))
                return gerber(L, out)
            ask(O, L, 'bounds:%d:%s' % (n, style), build, 'bounds', b, wb, 'bounds of coordinate blocks %s, %s (%s)' % (xs, ys, style))
            ask(O, L, 'size:%d:%s' % (n, style), build, 'size', (b[0][1] - b[0][0], b[1][1] - b[1][0]), ws, 'size of coordinate blocks %s, %s (%s)' % (xs, ys, style))
    parallel(O, list(enumerate(orders())), bounds)

    def boxes(job):
        n, (xs, ys) = job
        w = [0.25, 1.5, 0.75][:len(xs)]
        b = ((min(x - d for x, d in zip(xs, w)), max(x + d for x, d in zip(xs, w))), (min(y - d / 2 for y, d in zip(ys, w)), max(y + d / 2 for y, d in zip(ys, w))))

        def build():
            return gerber(L, [], [L.new(P + ('Rectangle', 'Obround')[k % 2], (x, y), 2 * d, d) for k, (x, y, d) in enumerate(zip(xs, ys, w))])
        ask(O, L, 'box:gerber:%d' % n, build, 'bounding_box', b, L.where('gerber.rs274x:GerberFile', 'bounding_box'), 'bounding box of shapes at %s, %s' % (xs, ys))
        b = ((min(x - d / 2 for x, d in zip(xs, w)), max(x + d / 2 for x, d in zip(xs, w))), (min(y - d / 2 for y, d in zip(ys, w)), max(y + d / 2 for y, d in zip(ys, w))))

        def drills():
            ts = [tool(L, k + 1, d) for k, d in enumerate(w)]
            return excellon(L, ts, [L.new(E + 'DrillHit', t, (x, y)) for t, x, y in zip(ts, xs, ys)])
        we = L.where(E + 'ExcellonFile', 'bounding_box')
        ask(O, L, 'box:drills:%d' % n, drills, 'bounding_box', b, we, 'bounding box of holes at %s, %s with diameters %s' % (xs, ys, w))
        if len(xs) < 3:
            return
        r = 0.375

        def slots():
            t = tool(L, 1, 2 * r)
            return excellon(L, [t], [L.new(E + 'DrillSlot', t, (xs[0], ys[0]), (xs[1], ys[1]), 1 + n % 2), L.new(E + 'DrillHit', t, (xs[2], ys[2]))][::1 if n % 3 else -1])
        ask(O, L, 'box:slots:%d' % n, slots, 'bounding_box', ((min(xs) - r, max(xs) + r), (min(ys) - r, max(ys) + r)), we, 'bounding box of a slot and a hole at %s, %s' % (xs, ys))
    parallel(O, list(enumerate(orders())), boxes)

    def parser(job):
        n, (xs, ys) = job
        CS = 'gerber.excellon_statements:CoordinateStmt'

        def build():
            ps = L.new(E + 'ExcellonParser')
            out = [L.new('gerber.excellon_statements:CommentStmt', 'X9Y9'), tool(L, 1, 0.5)]
            for k, (x, y) in enumerate(zip(xs, ys)):
                out += [L.new(CS, x, y)] if n % 2 else [L.new(CS, x, None), L.new(CS, None, y)]
            out.append(tool(L, 2, 0.25))
            L.set(ps, 'statements', L.list(out))
            L.set(ps, 'hits', L.list([1] * len(xs)))
            return ps
        L.fresh()
        box_ = {}

        def go():
            ps = build()
            box_['v'] = (L.get(ps, 'bounds'), tuple(L.items(L.get(ps, 'hole_sizes'))), L.get(ps, 'hole_count'))
        oc = L.run(go)
        O.note(L)
        L.I.call_log.clear()
        where = L.where(E + 'ExcellonParser', 'bounds')
        if O.outcome('parser:%d' % n, oc, where, 'extents of a drill program'):
            O.equal('parser:%d' % n, box_['v'], (box(xs, ys), (0.5, 0.25), len(xs)), where, 'bounds, hole sizes and hole count of a drill program with coordinates %s, %s' % (xs, ys))
    parallel(O, list(enumerate(orders())), parser)


def hits(L, ts, spec):
    """spec: [(tool index, points)] -> hits."""
    out = []
    for k, (t, ps) in enumerate(spec):
        out.append(L.new(E + 'DrillHit', ts[t], ps[0]) if len(ps) == 1 else L.new(E + 'DrillSlot', ts[t], ps[0], ps[1], 1 + k % 2))
    return out


def sequences():
    """Which tools hit holes (1) and slots (2), in order."""
    kinds = [(t, n) for t in (0, 1, 2) for n in (1, 2)]
    for n in (1, 2, 3):
        for s in itertools.product(kinds, repeat=n):
            yield s
    yield tuple((k % 3, 1) for k in range(12))
    yield tuple((k % 2, 1 + (k // 3) % 2) for k in range(14))
    yield ()


NUMBERS = (7, 1, 23)


def hypot(L, x, y):
    return L.I.bm.num1('sqrt', Poly.of(Poly.of(x) * x) + Poly.of(y) * y)


def lengths(O, L):
    wp = L.where(E + 'ExcellonFile', 'path_length')
    wq = L.where(E + 'ExcellonFile', 'primitives')

    def one(s):
        key = ''.join('%d%s' % (t, 'hs'[n - 1]) for t, n in s)
        pts = [[(sym('x%d%d' % (k, j)), sym('y%d%d' % (k, j))) for j in range(n)] for k, (t, n) in enumerate(s)]
        want, pos = {}, {}
        for (t, n), ps in zip(s, pts):
            for p in ps:
                o = pos.get(t, (0, 0))
                want[t] = Poly.of(want.get(t, 0.0)) + hypot(L, Poly.of(o[0]) - p[0], Poly.of(o[1]) - p[1])
                pos[t] = p
        L.fresh()
        box = {}

        def go():
            ts = [tool(L, n, sym('d%d' % n, '+')) for n in NUMBERS]
            f = excellon(L, ts, hits(L, ts, [(t, ps) for (t, n), ps in zip(s, pts)]), settings(L, 'metric'))
            box['one'] = tuple(L.call(f, 'path_length', n) for n in NUMBERS + (99,))
            d = L.call(f, 'path_length')
            box['all'] = tuple(sorted((k, v) for k, v in entries(L, d)))
            box['prims'] = tuple(prim(L, p) for p in L.items(L.get(f, 'primitives')))
        oc = L.run(go)
        O.note(L)
        L.I.call_log.clear()
        if not O.outcome('path:' + key, oc, wp, 'path lengths'):
            return
        for n, got in zip(range(4), box['one']):
            w = want.get(n)
            O.equal('path:%s:%d' % (key, n), got, w, wp, 'path length of tool %s for holes and slots %s' % ((NUMBERS + (99,))[n], key))
        O.equal('path:%s:tools' % key, tuple(k for k, _ in box['all']), tuple(sorted(NUMBERS[t] for t in want)), wp, 'tools of the path lengths')
        for k, v in box['all']:
            O.equal('path:%s:all:%d' % (key, k), v, want[NUMBERS.index(k)], wp, 'path length of tool %d among all' % k)
        w = tuple(('Drill', ps[0], sym('d%d' % NUMBERS[t], '+'), 'metric') if n == 1 else ('Slot', ps[0], ps[1], sym('d%d' % NUMBERS[t], '+'), 'metric') for (t, n), ps in zip(s, pts))
        O.equal('prims:' + key, len(box['prims']), len(w), wq, 'primitives of the holes and slots %s' % key)
        for k, (a, b) in enumerate(zip(box['prims'], w)):
            O.equal('prims:%s:%d' % (key, k), a, b, wq, 'primitive of hit %d of %s' % (k + 1, key))
    parallel(O, list(sequences()), one)


def prim(L, p):
    c = L.cls_of(p)
    return (c,) + tuple(L.get(p, a) for a in (('position', 'diameter', 'units') if c == 'Drill' else ('start', 'end', 'diameter', 'units')))


def counts(O, L):
    where = L.where(E + 'ExcellonFile', 'hit_count')
    for cs in itertools.product((0, 1, 5, 120), repeat=2):
        L.fresh()
        box = {}

        def go():
            ts = [tool(L, n, 1.0) for n in (3, 1)]
            for t, c in zip(ts, cs):
                L.set(t, 'hit_count', c)
            f = excellon(L, ts, [])
            box['all'] = tuple(sorted(entries(L, L.call(f, 'hit_count'))))
            box['one'] = tuple(L.call(f, 'hit_count', n) for n in (3, 1, 2))
        oc = L.run(go)
        O.note(L)
        if O.outcome('count:%s' % (cs,), oc, where, 'hit counts'):
            O.equal('count:%s' % (cs,), (box['all'], box['one']), (((1, cs[1]), (3, cs[0])), (cs[0], cs[1], None)), where, 'hit counts of tools with %s hits' % (cs,))


FIELDS = ('feed_rate', 'retract_rate', 'rpm', 'diameter', 'max_hit_count', 'depth_offset')


def updates(O, L):
    where = L.where(E + 'ExcellonFile', 'update_tool')
    sets = [()] + [(a,) for a in FIELDS] + list(itertools.combinations(FIELDS, 2)) + [FIELDS]
    for s in sets:
        for foreign, zero in ((False, False), (True, False), (False, True)):
            key = 'update:%s:%s%s' % ('+'.join(s), foreign, ':zero' if zero else '')
            value = (lambda a: 0) if zero else (lambda a: sym('new_' + a, '+'))
            L.fresh()
            box = {}

            def go():
                ts = [tool(L, n, **{k if k != 'diameter' else 'd': sym('%s%d' % (k, n), '+') for k in FIELDS}) for n in (1, 2)]
                # hits of a merged file may hold a tool object of their own
                alt = [tool(L, n, **{k if k != 'diameter' else 'd': sym('%s%d' % (k, n), '+') for k in FIELDS}) for n in (1, 2)] if foreign else ts
                for t, c in zip(ts, (4, 9)):
                    L.set(t, 'hit_count', c)
                hs = hits(L, alt, [(0, [(0.0, 0.0)]), (1, [(1.0, 0.0)]), (0, [(2.0, 0.0), (3.0, 0.0)]), (1, [(2.0, 0.0), (3.0, 0.0)])])
                f = excellon(L, ts, hs)
                L.call(f, 'update_tool', 2, **{a: value(a) for a in s})
                box['t'] = [tuple(L.get(t, a) for a in FIELDS + ('number', 'hit_count')) for t in ts]
                box['h'] = [tuple(L.get(L.get(h, 'tool'), a) for a in FIELDS + ('number',)) for h in hs]
                box['n'] = len(L.items(L.get(f, 'hits')))
            oc = L.run(go)
            O.note(L)
            if not O.outcome(key, oc, where, 'update_tool'):
                continue
            old = tuple(sym('%s1' % a, '+') for a in FIELDS)
            new = tuple(value(a) if a in s else sym('%s2' % a, '+') for a in FIELDS)
            O.equal(key + ':tools', tuple(box['t']), (old + (1, 4), new + (2, 9)), where, 'tools after an update of %s of tool 2' % (s,))
            O.equal(key + ':hits', (tuple(box['h']), box['n']), ((old + (1,), new + (2,), old + (1,), new + (2,)), 4), where, 'tools of the hits after an update of %s of tool 2' % (s,))


def reports(O, L):
    where = L.where(E + 'ExcellonFile', 'report')
    base = (('T1', ((1, 0.035, 2), (2, 0.125, 0), (12, 1.5, 1))), ('T2', ((5, 0.25, 3),)), ('none', ()))
    for units in ('inch', 'metric'):
        for notation in ('absolute', 'incremental'):
            for fmt in ((2, 4), (2, 5), (3, 3)):
                for name in (None, 'board.drl'):
                    for label, ts_ in base:
                        for out in (None, 'report.txt'):
                            key = 'report:%s:%s:%s:%s:%s:%s' % (units, notation, fmt, name, label, out)
                            L.fresh()
                            box = {}

                            def go():
                                ts = [tool(L, n, d, units) for n, d, _ in ts_]
                                spec = []
                                for i, (n, d, c) in enumerate(ts_):
                                    L.set(ts[i], 'hit_count', c)
                                    for k in range(c):
                                        spec.append((i, [(3.0 * (k + 1), 4.0 * (k + 1))] if k < 2 else [(3.0 * (k + 1), 4.0 * (k + 1)), (3.0 * (k + 1) + 5, 4.0 * (k + 1) + 12)]))
                                f = excellon(L, ts, hits(L, ts, spec), settings(L, units, fmt, notation), name)
                                del L.I.st.events[:]
                                box['r'] = L.call(f, 'report', *([out] if out else []))
                                hs = [e[1] for e in L.I.st.events if e[0] == 'open']
                                box['f'] = [(h[0], ''.join(L.items(L.get(h[2], 'out')))) for h in hs]
                            oc = openable(L.run(go))
                            O.note(L)
                            L.I.call_log.clear()
                            if not O.outcome(key, oc, where, 'drill report'):
                                continue
                            r = box['r']
                            if not isinstance(r, str):
                                O.undecided(key, 'report is %s' % show(r))
                                continue
                            rows = [ln.split() for ln in r.split('\n') if ln.strip()]
                            O.equal(key + ':mode', ('Data Mode ' + notation.capitalize()).split() in rows, True, where, 'data mode line of the report:\n%s' % r)
                            O.equal(key + ':units', ['Units', 'Inches' if units == 'inch' else 'Millimeters'] in rows, True, where, 'units line of the report:\n%s' % r)
                            O.equal(key + ':name', ['NC', 'Drill', 'File:', 'board.drl'] in rows, name is not None, where, 'name of the file in the report:\n%s' % r)
                            got = tuple(tuple(x) for x in rows if x[0][0] == 'T' and x[0][1:].isdigit())
                            want = tuple(('T%02d' % n, '%.*f' % (fmt[1], d), '%d' % c, '%f%s' % (5.0 * min(c, 2) + (18.0 if c > 2 else 0), 'in.' if units == 'inch' else 'mm')) for n, d, c in ts_)
                            O.equal(key + ':tools', tuple(sorted(got)), tuple(sorted(want)), where, 'tool rows of the report (code, size, hits, path length)')
                            O.equal(key + ':file', box['f'] == ([(out, r)] if out else []), True, where, 'the report is written to %s' % out)


def changed(O, L):
    """What a file says after a change does not depend on what it was asked before."""
    from . import c08
    P2 = {'gerber': ('bounds', 'size', 'bounding_box'), 'excellon': ('bounds', 'bounding_box')}
    Q2 = {'gerber': (), 'excellon': ('hit_count', 'path_length')}

    def state(f, kind):
        out = {}
        for a in P2[kind]:
            out[a] = L.get(f, a)
        for a in Q2[kind]:
            v = L.call(f, a)
            out[a] = tuple(sorted(entries(L, v)))
            for n in (1, 2, 3, 7):
                if n in dict(out[a]):
                    out['%s(%d)' % (a, n)] = L.call(f, a, n)
        boxes = tuple(L.get(p, 'bounding_box') for p in L.items(L.get(f, 'primitives')))
        out['boxes of the primitives'] = boxes
        return out

    def last(f, a):
        return L.items(L.get(f, a))[-1]

    def coords(f):
        return [s for s in L.items(L.get(f, 'statements')) if L.cls_of(s) == 'CoordStmt']

    far = (77.5, -91.25)
    changes = {
        'gerber': [('to_metric()', lambda f: L.call(f, 'to_metric')), ('to_inch()', lambda f: L.call(f, 'to_inch')), ('offset(3, -4)', lambda f: L.call(f, 'offset', 3.0, -4.0)),
                   ('offset(-30)', lambda f: L.call(f, 'offset', -30.0)),
                   ('x of a block set', lambda f: L.set(coords(f)[0], 'x', far[0])), ('y of a block removed', lambda f: L.set(coords(f)[1], 'y', None)),
                   ('a block added', lambda f: L.call(L.get(f, 'statements'), 'append', L.new('gerber.gerber_statements:CoordStmt', None, far[0], far[1], None, None, 'D02', None))),
                   ('a block removed', lambda f: L.call(L.get(f, 'statements'), 'remove', coords(f)[0])),
                   ('a primitive added', lambda f: L.call(L.get(f, 'primitives'), 'append', L.new(P + 'Circle', far, 1.0))),
                   ('a primitive removed', lambda f: L.call(L.get(f, 'primitives'), 'pop', 0)),
                   ('a primitive moved', lambda f: L.call(L.items(L.get(f, 'primitives'))[0], 'offset', 50.0, 60.0))],
        'excellon': [('to_metric()', lambda f: L.call(f, 'to_metric')), ('to_inch()', lambda f: L.call(f, 'to_inch')), ('offset(3, -4)', lambda f: L.call(f, 'offset', 3.0, -4.0)),
                     ('a hit added', lambda f: L.call(L.get(f, 'hits'), 'append', L.new(E + 'DrillHit', L.get(L.items(L.get(f, 'hits'))[0], 'tool'), far))),
                     ('a hit removed', lambda f: L.call(L.get(f, 'hits'), 'pop', 0)), ('the last hit removed', lambda f: L.call(L.get(f, 'hits'), 'pop')),
                     ('a hit moved', lambda f: L.set(L.items(L.get(f, 'hits'))[0], 'position', far) if L.cls_of(L.items(L.get(f, 'hits'))[0]) == 'DrillHit' else L.call(L.items(L.get(f, 'hits'))[0], 'offset', 9.0, 9.0)),
                     ('update_tool(1, diameter=9)', lambda f: L.call(f, 'update_tool', 1, diameter=9.0)),
                     ('the diameter of a tool set', lambda f: L.set(L.get(L.items(L.get(f, 'hits'))[0], 'tool'), 'diameter', 8.0))]}
    for kind, texts in (('gerber', (c08.GBR, c08.GBR2)), ('excellon', (c08.DRL, c08.DRL2))):
        load = L.obj_from('gerber.%s:loads' % {'gerber': 'rs274x', 'excellon': 'excellon'}[kind])
        cls = {'gerber': 'GerberFile', 'excellon': 'ExcellonFile'}[kind]
        where = L.where('gerber.rs274x:GerberFile' if kind == 'gerber' else E + 'ExcellonFile')
        for n, text in enumerate(texts):
            for name, change in changes[kind]:
                key = 'changed:%s %d:%s' % (kind, n + 1, name)
                got = []
                for first in (False, True):
                    L.fresh()
                    L.I.steps = 0

                    def go():
                        f = L.I.call(load, [text], {})
                        if first:
                            state(f, kind)
                        change(f)
                        return state(f, kind)
                    oc = L.run(go)
                    L.I.call_log.clear()
                    if not O.outcome(key + (':asked before' if first else ''), oc, where, '%s after %s' % (cls, name)):
                        break
                    got.append(oc.value)
                if len(got) == 2:
                    for a, v in got[0].items():
                        O.equal('%s:%s' % (key, a), got[1].get(a, MISSING), v, where, '%s of the %s, asked before and after %s' % (a, cls, name))


def run(O, thorough):
    L = Lab(['gerber.rs274x', 'gerber.cam', 'gerber.excellon'])
    extents(O, L)
    lengths(O, L)
    counts(O, L)
    updates(O, L)
    reports(O, L)
    changed(O, L)
