"""C29 values compare and describe themselves by what they hold."""
import re

from sa.lab import *
from sa.par import parallel
from .strs import *
from . import c10
from .c11 import FIELDS, STUBS, C, HEAD, alphabet, value, hash_

RULE = ('Abstract interpretation of the comparisons and summaries: statements read from every pair of blocks of an alphabet of all kinds, compared both ways against the equality of '
        'their kinds and values; tools and primitives compared with one value changed at a time, over symbolic sizes and places; the text of str() and the structure given to '
        'the JSON encoder compared with the values held.')
ASSUMPTIONS = ['json.dumps encodes numbers, texts, lists, dictionaries and None, and asks its default for anything else']
S = 'gerber.gerber_statements:'
X = 'gerber.excellon_statements:'
PR = 'gerber.primitives:'


def jsonable(L, v, default):
    """What the JSON encoder makes of v; raises TypeError where it does."""
    if v is None or isinstance(v, (bool, int, float, str, Poly, SStr)):
        return v
    if isinstance(v, tuple):
        return tuple(jsonable(L, x, default) for x in v)
    if isinstance(v, Ref):
        h = L.I.st.get(v)
        if h.kind == 'list':
            return tuple(jsonable(L, x, default) for x in h.items)
        if h.kind == 'dict':
            return {'dict': tuple(sorted(((str(k), jsonable(L, x, default)) for k, x in h.d.values()), key=lambda kv: kv[0]))}
    if default is not None:
        return jsonable(L, L.I.call(default, [v], {}), default)
    L.I.raise_('TypeError', 'Object of type %s is not JSON serializable' % L.cls_of(v))


def lab(stubs=True):
    box = {}

    def dumps(I, args, kw):
        box['v'] = jsonable(L, args[0] if args else kw.get('obj'), kw.get('default'))
        return 'JSON'
    st = dict(STUBS) if stubs else {}
    st['ext:json.dumps'] = dumps
    L = Lab(['gerber.rs274x', 'gerber.cam', 'gerber.primitives', 'gerber.excellon', 'gerber.excellon_statements', 'gerber.am_statements'], stubs=st)
    L.box = box
    return L


def decide(O, key, got, want, where, what):
    if got is None or isinstance(got, tuple) and None in got:
        O.undecided(key, what + ': not decided')
    else:
        O.equal(key, got, want, where, what)


def same(a, b):
    """Decide equality of two fact tuples (concrete values)."""
    return a == b


def fact(L, s):
    c = L.cls_of(s)
    return (c, tuple((a, value(L, L.get(s, a))) for a in FIELDS.get(c, ())) + (('units', L.get(s, 'units')),))


def statements(O, L, ks, alpha):
    """The statements of the alphabet, compared pairwise."""
    where = L.where(S + 'Statement', '__eq__')
    L.fresh()
    C.reset()
    box = {}

    def go():
        for n in (1, 2):
            box[n] = []
            for b in alpha:
                L.I.steps = 0
                f = L.I.call(L.obj_from('gerber.rs274x:loads'), [c10.lay(HEAD + [b], 'lines')], {})
                sts = L.items(L.get(f, 'statements'))
                box[n].append(sts[-1] if L.cls_of(sts[-1]) != 'EofStmt' or b[0].startswith(('M02', 'M00')) else sts[-2])
        return None
    oc = L.run(go)
    if not O.outcome('statements', oc, where, 'reading the statements to compare'):
        return
    facts = [fact(L, s) for s in box[1]]
    for i in ks:
        for j in range(len(alpha)):
            key = 'equal:%s:%s' % (alpha[i][0][-60:], alpha[j][0][-60:])
            want = same(facts[i], facts[j])
            for op, w in (('Eq', want), ('NotEq', not want)):
                L.I.steps = 0
                oc = L.run(lambda: L.I.truth(L.I.bm.compare(op, box[1][i], box[2][j])))
                if O.outcome(key + op, oc, where, 'comparing %s with %s' % (facts[i][0], facts[j][0])):
                    decide(O, key + op, oc.value, w, where, '%s %s %s' % (alpha[i][0], '==' if op == 'Eq' else '!=', alpha[j][0]))


TOOL = (('diameter', 'd'), ('feed_rate', 'f'), ('retract_rate', 'b'), ('rpm', 's'), ('depth_offset', 'z'), ('max_hit_count', 'h'), ('plated', None))


def tools(O, L):
    where = L.where(X + 'ExcellonTool', 'equivalent')
    base = dict((a, sym(n, '+') if n else 'plated') for a, n in TOOL)

    def tool(units='inch', number=1, id_=7, hits=0, **ch):
        st = L.new('gerber.cam:FileSettings', units=units, format=(2, 4))
        args = dict(base, number=number, id=id_)
        args.update(ch)
        t = L.new(X + 'ExcellonTool', st, **args)
        for _ in range(hits):
            L.call(t, '_hit')
        return t
    cases = [('same', {}, {}, True), ('number', {}, dict(number=2), True), ('id', {}, dict(id_=8), True), ('hits', {}, dict(hits=3), True), ('units', {}, dict(units='metric'), False),
             ('metric', dict(units='metric'), dict(units='metric', number=9), True)]
    for a, n in TOOL:
        ch = base[a] + 1 if n else 'nonplated'
        cases += [(a, {}, {a: ch}, False), (a + ' missing', {}, {a: None}, False), (a + ' missing in both', {a: None}, {a: None, 'number': 4}, True), (a + ' and number', dict(number=3), {a: ch}, False)]
    for name, one, two, want in cases:
        key = 'tools:' + name
        L.fresh()
        oc = L.run(lambda: (L.I.truth(L.call(tool(**one), 'equivalent', tool(**two))), L.I.truth(L.call(tool(**two), 'equivalent', tool(**one)))))
        if O.outcome(key, oc, where, 'comparing tools differing in ' + name):
            decide(O, key, oc.value, (want, want), where, 'tools differing in %s are equivalent' % name)
    L.fresh()
    oc = L.run(lambda: L.I.truth(L.call(tool(), 'equivalent', L.new(X + 'ToolSelectionStmt', 1))))
    if O.outcome('tools:other', oc, where, 'comparing a tool with another statement'):
        decide(O, 'tools:other', oc.value, False, where, 'a tool is equivalent to a tool selection')
    for a in [None] + [a for a, _ in TOOL]:
        for how in ('from_tool', 'from_dict'):
            key = 'tools:%s without %s' % (how, a)
            w = L.where(X + 'ExcellonTool', how)
            L.fresh()

            def go():
                t = tool(number=5, hits=2, **({a: None} if a else {}))
                if how == 'from_tool':
                    u = L.I.call(L.get(L.obj_from(X + 'ExcellonTool'), how), [t], {})
                else:
                    d = dict(base, number=5)
                    if a:
                        del d[a]
                    u = L.I.call(L.get(L.obj_from(X + 'ExcellonTool'), how), [L.new('gerber.cam:FileSettings', units='metric'), L.dict(**d)], {})
                    assert L.get(L.get(u, 'settings'), 'units') == 'metric'
                return tuple((f, L.get(u, f)) for f in [x for x, _ in TOOL] + ['number', 'hit_count']), tuple(L.get(t, f) for f in [x for x, _ in TOOL])
            oc = L.run(go)
            if O.outcome(key, oc, w, 'making a tool by ' + how):
                want = dict(base, number=5, hit_count=0)
                if a:
                    want[a] = None
                for f, v in oc.value[0]:
                    O.equal('%s:%s' % (key, f), v, want[f], w, '%s of the tool made by %s' % (f, how))


PLACES = [
    ('', sym('x'), sym('y'), sym('u'), sym('v'), sym('d', '+'), sym('e', '+'), sym('r', '+'), sym('dx'), sym('dy')),
    ('at numbers:', 1.25, -2.5, 3.75, 0.5, 0.75, 1.5, 2.25, 10.0, -20.0),
    ('at one place:', 0.0, 0.0, 0.0, 0.0, 0.5, 0.5, 0.5, 0.0, 0.0),
    ('in place:', 2.0, 3.0, 2.0, 3.0, 1.0, 2.0, 4.0, 0.0, 0.0),
    ('apart:', -2.0, 3.0, 2.0, -3.0, 2.0, 1.0, 4.0, 4.0, 0.0),
]


def shapes(O, L, place):
    """Equivalence of primitives at an offset."""
    pre, x, y, u, v, d, e, r, dx, dy = place

    def circle(L, p=(x, y), d=d, hole=None):
        return L.new(PR + 'Circle', p, d, **({'hole_diameter': hole} if hole is not None else {}))

    def rect(L, p=(x, y), w=d, h=e, rot=0, hole=0):
        return L.new(PR + 'Rectangle', p, w, h, rotation=rot, **({'hole_diameter': hole} if hole else {}))

    def poly(L, p=(x, y), n=6, rad=r, rot=0):
        return L.new(PR + 'Polygon', p, n, rad, 0, rotation=rot)

    def line(L, p=(x, y), q=(u, v)):
        return L.new(PR + 'Line', p, q, L.new(PR + 'Circle', None, 0))

    def moved(p):
        return (p[0] + dx, p[1] + dy)

    def outline(L, ps=((x, y), (u, y), (u, v)), by=None):
        ps = [by(p) for p in ps] if by else list(ps)
        return L.new(PR + 'Outline', L.list([line(L, a, b) for a, b in zip(ps, ps[1:] + ps[:1])]))

    one = 1
    kinds = [
        ('circle', circle, [('p', (x, y))], [dict(d=d + 1), dict(d=d * 2)], ['Circle']),
        ('circle with hole', lambda L, **k: circle(L, **dict(dict(hole=e), **k)), [('p', (x, y))], [dict(hole=e + 1), dict(hole=e * 2), dict(d=d + 1)], ['Circle']),
        ('rectangle', rect, [('p', (x, y))], [dict(w=d + 1), dict(h=e + 1), dict(rot=1), dict(rot=-0.5), dict(hole=r)], ['Rectangle']),
        ('turned rectangle', lambda L, **k: rect(L, **dict(dict(rot=0.5), **k)), [('p', (x, y))], [dict(w=d * 3), dict(h=e * 3), dict(rot=0), dict(rot=-0.5)], ['Rectangle']),
        ('polygon', poly, [('p', (x, y))], [dict(n=5), dict(n=8), dict(rad=r * 2), dict(rad=r + 1), dict(rot=10)], ['Polygon']),
        ('line', line, [('p', (x, y)), ('q', (u, v))], [], ['Line']),
    ]
    for name, mk, coords, changes, cls in kinds:
        where = L.where(PR + cls[0], 'equivalent')

        def pair(ch, by, order=0):
            at = dict((k, by(k, p)) for k, p in coords)
            a, b = mk(L, **dict(at, **(ch if order else {}))), mk(L, **({} if order else ch))
            return L.I.truth(L.call(a, 'equivalent', b, (dx, dy)))
        jobs = [('moved', {}, lambda k, p: moved(p), True)]
        for k, p in coords:
            for ax in (0, 1):
                for far, want in ((1, False), (-1, False), (0.001, False), (-0.00002, False), (1e-8, True), (-1e-8, True)):
                    jobs.append(('%s %s off by %s' % (k, 'xy'[ax], far), {}, (lambda k0, ax, far: lambda k, p: tuple(c + (far if k == k0 and n == ax else 0) for n, c in enumerate(moved(p))))(k, ax, far), want))
            jobs.append(('%s the other way' % k, {}, (lambda k0: lambda k, p: (p[0] - dx - 1, p[1] - dy - 2) if k == k0 else moved(p))(k), None))
        for n, ch in enumerate(changes):
            jobs.append(('other %s %d' % (sorted(ch)[0], n), ch, lambda k, p: moved(p), False))
        for what, ch, by, want in jobs:
            if want is None:
                continue
            for order in (0, 1):
                key = 'equivalent:' + pre + '%s:%s:%d' % (name, what, order)
                L.fresh()
                oc = L.run(lambda: pair(ch, by, order))
                if O.outcome(key, oc, where, 'comparing %s, %s' % (name, what)):
                    decide(O, key, oc.value, want, where, '%s, %s, is equivalent' % (name, what))
    # kinds
    makers = [('circle', circle), ('rectangle', rect), ('polygon', poly), ('line', line), ('outline', outline)]
    for n1, m1 in makers:
        for n2, m2 in makers:
            if n1 == n2:
                continue
            key = 'equivalent:' + pre + '%s and %s' % (n1, n2)
            L.fresh()
            oc = L.run(lambda: L.I.truth(L.call(m1(L), 'equivalent', m2(L), (0, 0))))
            w = L.where(PR + n1.capitalize(), 'equivalent')
            if O.outcome(key, oc, w, 'comparing %s and %s' % (n1, n2)):
                decide(O, key, oc.value, False, w, 'a %s is equivalent to a %s' % (n1, n2))
    # groups
    for cls in ('Outline', 'AMGroup'):
        w = L.where(PR + cls, 'equivalent')

        def group(ps, pol=()):
            if cls == 'Outline':
                return L.new(PR + 'Outline', L.list([line(L, a, b) for a, b in ps]))
            ls = [L.new('recorder:Shape', circle(L, p, s)) for p, s in ps]
            for n, s in enumerate(ls):
                L.set(L.get(s, 'primitive'), 'level_polarity', 'clear' if n in pol else 'dark')
            return L.new(PR + 'AMGroup', L.list(ls))
        if cls == 'Outline':
            a = [((x, y), (u, y)), ((u, y), (u, v)), ((u, v), (x, y))]
            b = [tuple(moved(p) for p in l) for l in a]
            vs = [('moved', b, (), True), ('short', [b[0], (b[0][1], b[0][0])], (), False), ('long', b + [(b[0][0], b[0][0])], (), False)]
            for n in range(3):
                for ax in (0, 1):
                    far = tuple(1 if k == ax else 0 for k in (0, 1))
                    c = list(b)
                    m = (n + 1) % 3
                    p = (c[n][1][0] + far[0], c[n][1][1] + far[1])
                    c[n], c[m] = (c[n][0], p), (p, c[m][1])
                    vs.append(('other corner %d %d' % (n, ax), c, (), False))
                    if n < 2:       # gaps
                        c = list(b)
                        c[n] = (c[n][0], p)
                        vs.append(('other end %d %d' % (n, ax), c, (), False))
                        c = list(b)
                        c[m] = (p, c[m][1])
                        vs.append(('other start %d %d' % (m, ax), c, (), False))
        else:
            a = [((x, y), d), ((u, v), e), ((x + 1, y), r)]
            b = [(moved(p), s) for p, s in a]
            vs = [('moved', b, (), True), ('short', b[:-1], (), False), ('long', b + b[:1], (), False)]
            for n in range(3):
                c = list(b)
                c[n] = (c[n][0], c[n][1] * 2)
                vs.append(('other size %d' % n, c, (), False))
                c = list(b)
                c[n] = ((c[n][0][0], c[n][0][1] + 1), c[n][1])
                vs.append(('other place %d' % n, c, (), False))
                vs.append(('other polarity %d' % n, b, (n,), False))
        for what, c, pol, want in vs:
            for order in (0, 1):
                key = 'equivalent:' + pre + '%s:%s:%d' % (cls, what, order)
                L.fresh()

                def go():
                    g1, g2 = group(c, pol), group(a)
                    return L.I.truth(L.call(g2, 'equivalent', g1, (-dx, -dy)) if order else L.call(g1, 'equivalent', g2, (dx, dy)))
                oc = L.run(go)
                if O.outcome(key, oc, w, 'comparing %s, %s' % (cls, what)):
                    decide(O, key, oc.value, want, w, '%s, %s, is equivalent' % (cls, what))


def flashes(O, L):
    from .c16 import kinds
    for name, _, mk in kinds():
        if name == 'test point':
            continue
        L.fresh()
        box = {}

        def go():
            p = mk(L)
            box['c'] = L.cls_of(p)
            return L.get(p, 'flashed')
        oc = L.run(go)
        w = L.where(PR + box.get('c', 'Primitive'), 'flashed')
        want = box.get('c') not in ('Line', 'Arc', 'Region', 'Drill', 'Slot')
        if O.outcome('flashed:' + name, oc, w, 'asking whether a %s is flashed' % name):
            O.equal('flashed:' + name, oc.value, want, w, 'a %s is flashed' % name)


def g(v):
    return '%g' % v


WORDS = {'FSParamStmt': ('zero_suppression', 'notation'), 'LPParamStmt': ('lp',), 'ADParamStmt': ('d',), 'AMParamStmt': ('name', 'macro'), 'ASParamStmt': ('mode',), 'INParamStmt': ('name',),
         'LNParamStmt': ('name',), 'IPParamStmt': ('ip',), 'IRParamStmt': ('angle',), 'MIParamStmt': ('a', 'b'), 'OFParamStmt': ('a', 'b'), 'SFParamStmt': ('a', 'b'),
         'DeprecatedStmt': ('line',), 'CoordStmt': ('function', 'x', 'y', 'i', 'j'), 'ApertureStmt': ('d',), 'CommentStmt': ('comment',), 'QuadrantModeStmt': ('mode',),
         'RegionModeStmt': ('mode',), 'UnknownStmt': ('line',)}


def summaries(O, L, blocks, what):
    """dump_str and dump_json of a program."""
    L.fresh()
    C.reset()
    key = 'summary of %s..%08x' % (what[:40], hash_(what))
    W = L.where('gerber.rs274x:GerberParser', 'dump_str')
    J = L.where('gerber.rs274x:GerberParser', 'dump_json')
    box = {}

    def go():
        p = L.new('gerber.rs274x:GerberParser')
        L.call(p, 'parse_raw', c10.lay(HEAD + blocks, 'lines'))
        box['s'] = L.items(L.get(p, 'statements'))
        box['lines'] = [L.call(s, '__str__') for s in box['s']]
        return L.call(p, 'dump_str')
    oc = L.run(go)
    if not O.outcome(key, oc, W, 'summing up a program of ' + what[:80]):
        return
    O.equal(key, oc.value, ''.join(t + '\n' for t in box['lines']), W, 'summary of a program: str() of each statement on its line')
    for n, (s, t) in enumerate(zip(box['s'], box['lines'])):
        c = L.cls_of(s)
        nums = re.findall(r'[-+.\w]+', t)
        for a in WORDS.get(c, ()):
            v = L.get(s, a)
            if v is None or v == '':
                continue
            shown = [v] if isinstance(v, str) else [g(v), '%f' % v, '%d' % v if v == int(v) else g(v)] if isinstance(v, (int, float)) else None
            if shown is None:
                O.undecided('%s:%d' % (key, n), 'value %s' % show(v))
                continue
            w = L.where(S + c, '__str__')
            hit = [x for x in shown if (x in t if isinstance(v, str) else x in nums)]
            if hit and not isinstance(v, str):
                nums.remove(hit[0])         # each number is shown on its own
            (O.ok('%s:%d:%s' % (key, n, a)) if hit else O.fail('%s:%d:%s' % (key, n, a), w, '%s of %s is %s and missing in its text %r' % (a, c, show(v), t)))
    L.box.pop('v', None)
    oc = L.run(lambda: L.call(go_parser(L, blocks), 'dump_json'))
    if not O.outcome(key + ':json', oc, J, 'JSON of a program of ' + what[:80]):
        return
    got = L.box.get('v')
    if oc.value != 'JSON' or got is None:
        O.undecided(key + ':json', 'not made by json.dumps')
        return
    L.fresh()
    C.reset()
    oc = L.run(go)
    lst = dict(got['dict']).get('statements') if isinstance(got, dict) else None
    if not isinstance(lst, tuple) or len(lst) != len(box['s']):
        O.fail(key + ':json', J, 'JSON of a program of %d statements has %s' % (len(box['s']), len(lst) if isinstance(lst, tuple) else 'none'))
        return
    for n, (s, e) in enumerate(zip(box['s'], lst)):
        c = L.cls_of(s)
        d = dict(e['dict']) if isinstance(e, dict) else {}
        for a in FIELDS.get(c, ()) + ('units',):
            v = L.get(s, a)
            if a == 'primitives':
                # every field of every primitive of the macro
                ps = L.items(v)
                es = d.get(a, ())
                O.equal('%s:json:%d:%s' % (key, n, a), len(es) if isinstance(es, tuple) else None, len(ps), J, 'primitives of a macro in the JSON of a program')
                continue
            O.equal('%s:json:%d:%s' % (key, n, a), d.get(a, 'missing'), value(L, v), J, '%s of %s in the JSON of a program' % (a, c))


def go_parser(L, blocks):
    p = L.new('gerber.rs274x:GerberParser')
    L.call(p, 'parse_raw', c10.lay(HEAD + blocks, 'lines'))
    return p


def drills(O, L):
    """Texts of Excellon statements."""
    cases = [('CoordinateStmt', (1.5, -2.25), ('1.5', '-2.25')), ('CoordinateStmt', (None, 3.5), ('3.5',)), ('CoordinateStmt', (0.125, None), ('0.125',)), ('CoordinateStmt', (0, 0.0), ('0',)),
             ('RepeatHoleStmt', (7, 1.5, -2.25), ('7', '1.5', '-2.25')), ('RepeatHoleStmt', (12, None, 3.5), ('12', '3.5')), ('RepeatHoleStmt', (3, 4.5, None), ('3', '4.5')), ('RepeatHoleStmt', (3, None, None), ('3',)),
             ('UnknownStmt', ('M99 x',), ('M99 x',)),
             ('SlotStmt', (1.5, 2.5, 3.5, -4.5), ('1.5', '2.5', '3.5', '-4.5')), ('SlotStmt', (1.5, None, None, 4.5), ('1.5', '4.5')), ('SlotStmt', (0, None, 0, None), ('0',))]
    for c, args, shown in cases:
        key = 'text of %s%s' % (c, args)
        w = L.where(X + c, '__str__')
        L.fresh()
        oc = L.run(lambda: L.call(L.new(X + c, *args), '__str__'))
        if O.outcome(key, oc, w, key):
            pos, ok = 0, isinstance(oc.value, str)
            for t in shown:
                pos = oc.value.find(t, pos) if ok else -1
                ok = pos >= 0
                pos += len(t)
            (O.ok(key) if ok else O.fail(key, w, '%s is %r and misses one of %s' % (key, oc.value, ', '.join(shown))))


MORE = [(t, 0) for t in ('G02X1Y2I0J1D01*', 'G03X1Y2I1J0D01*', 'G03X0Y0I0J0D01*', 'X0Y5D02*', 'X5Y0D02*', 'X0Y0D03*', 'G02X1Y2J1D01*', 'G02X1Y2I1D01*')] + [
    (t, 1) for t in ('OFA0B1.5*', 'OFA1.5B0*', 'SFA1B1*', 'MIA1B1*', 'MIA0B0*', 'SFA2B1*')]


def run(O, thorough):
    from .picture import project
    alpha = alphabet() + MORE
    L, N = lab(), lab(False)
    P = Lab(['gerber.primitives', 'gerber.am_statements', 'recorder'], project=project())
    names = [b[0] for b in alpha]
    jobs = [('eq', list(range(i, len(alpha), 14))) for i in range(14)]
    jobs += [('sum', i) for i in range(0, len(alpha), 6)] + [('tools',), ('flashes',), ('drills',)] + [('shapes', p) for p in PLACES]

    def work(job):
        if job[0] == 'eq':
            statements(O, N, job[1], alpha)
        elif job[0] == 'sum':
            bs = alpha[job[1]:job[1] + 6]
            summaries(O, N, bs, ' '.join(b[0] for b in bs))
        elif job[0] == 'shapes':
            shapes(O, P, job[1])
        elif job[0] == 'flashes':
            flashes(O, P)
        elif job[0] == 'drills':
            drills(O, N)
        else:
            tools(O, L)
        for l in (L, N, P):
            O.note(l)
            l.I.call_log.clear()
    parallel(O, jobs, work)
