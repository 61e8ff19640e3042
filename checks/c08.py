"""C08 operations on copies and read-only queries leave their source alone."""
from sa.lab import *
from . import c04

RULE = ('Effect and ownership analysis by abstract interpretation: operations.to_inch/to_metric/offset on files holding every kind of part, and on files '
        'parsed from text, must leave the digest of everything reachable from the source unchanged, return an object that shares no mutable object '
        'with it, and give the same observable state as the in-place method. Queries (bounds, bounding boxes, sizes, reports, writing) must leave '
        'the digest of the observable state unchanged and give the same result when repeated.')
ASSUMPTIONS = ['a file with one part of each class stands for all files', 'memo fields of primitives (underscore attributes) are not observable state']

GBR = ('%FSLAX24Y24*%\n%MOIN*%\nG04 a comment*\n%ADD10C,0.01*%\n%ADD11R,0.02X0.03*%\n%AMDON*1,1,$1,$2,$3*%\n%ADD12DON,0.1X0X0*%\n%LPD*%\nG75*\nD10*\n'
       'X100Y100D02*\nG01X200Y100D01*\nG03X300Y200I0J100D01*\nD11*\nX5000Y5000D03*\nD12*\nX1Y1D03*\nG36*\nX0Y0D02*\nX10Y0D01*\nX10Y10D01*\nX0Y0D01*\nG37*\nM02*\n')
DRL = ('M48\nINCH,LZ\nT1C0.02\nT2C0.04\n%\nT2\nX010000Y020000G85X020000Y020000\nX03Y03\nT1\nX010000Y010000\nX020000\nT2\nX04Y04\nM30\n')
# the same with parts in no particular order: clear before dark, large before small, unused before used, blocks without values
GBR2 = ('G04 first*\n%FSLAX33Y33*%\n%MOMM*%\n%ADD21R,2X1*%\n%ADD20C,1.5*%\n%ADD10O,0.5X1.25X0.25*%\n%ADD33P,2X6X15*%\n%LPC*%\n%LNB*%\nD20*\nX9000Y-2000D03*\n%LPD*%\nD10*\n'
        'X-4000D03*\nY7000D03*\nG04 second*\nD21*\nX100Y100D02*\nG01X0D01*\n%LPC*%\nG36*\nX500Y500D02*\nX0Y500D01*\nX0Y0D01*\nX500Y500D01*\nG37*\nD20*\nG74*\nG02X1000Y0I1000J0D01*\n'
        '%LPD*%\nD33*\nX-1Y-1D03*\nD20*\nX3000Y3000D03*\nX3000Y3000D03*\nG04 first*\nM02*\n')
DRL2 = ('; before\nM48\nMETRIC,TZ,000.000\nT7C1.5F200S65\nT1C0.8\nT3C1.0\n%\nG90\nT3\nX9000Y9000\nX-1000Y2000\nT1\nX5000Y0\nX5000Y0\nX1000Y1000G85X0Y1000\nT3\nX0Y0\nM30\n')


def run(O, thorough):
    L = Lab(['gerber.operations', 'gerber.rs274x', 'gerber.excellon', 'gerber.am_statements'])
    dx, dy = sym('dx'), sym('dy')

    def parsed(kind):
        def build(L, units):
            if kind in (GBR, GBR2):
                f = L.I.call(L.obj_from('gerber.rs274x:loads'), [kind], {})
            else:
                f = L.I.call(L.obj_from('gerber.excellon:loads'), [kind], {})
            L.call(f, 'to_' + units)

            def rd():
                r = {}
                for i, p in enumerate(L.items(L.get(f, 'primitives'))):
                    r['primitive %d.bounding_box' % i] = ('K', L.get(p, 'bounding_box'))
                    r['primitive %d.units' % i] = ('K', L.get(p, 'units'))
                for i, s in enumerate(L.items(L.get(f, 'statements'))):
                    for a in ('x', 'y', 'units', 'mode'):
                        v = L.attrs(s).get(a)
                        if v is not None:
                            r['statement %d.%s' % (i, a)] = ('K', v)
                r['units'] = ('K', L.get(f, 'units'))
                return r
            return f, rd
        return build
    builders = [(n, s, b) for n, s, b in c04.FILES] + [('GerberFile/parsed', c04.G, parsed(GBR)), ('ExcellonFile/parsed', c04.E, parsed(DRL)),
                                                   ('GerberFile/parsed 2', c04.G, parsed(GBR2)), ('ExcellonFile/parsed 2', c04.E, parsed(DRL2))]
    for name, spec, build in builders:
        for frm in ('inch', 'metric'):
            for op, args in (('to_inch', ()), ('to_metric', ()), ('offset', (dx, dy))):
                key = '%s:%s:%s' % (name, frm, op)
                where = L.where('gerber.operations:' + op)
                L.fresh()
                box = {}

                def go():
                    f, rd = build(L, frm)
                    rd()
                    box['obs0'] = rd()
                    before = L.snapshot([f])
                    res = L.I.call(L.obj_from('gerber.operations:' + op), [f] + list(args), {})
                    box['res'] = res
                    after = L.snapshot([f])
                    box['same'] = diff(before, after)
                    box['shared'] = sorted(set(after) & set(L.snapshot([res])))
                    box['obs1'] = rd()
                    box['cls'] = L.cls_of(res), L.cls_of(f)
                    if box['shared']:
                        box['what'] = [L.I.st.heap[a].kind + ' ' + str(getattr(L.I.st.heap[a], 'cls', '')) for a in box['shared']][:5]
                oc = L.run(go)
                O.note(L)
                if not O.outcome(key, oc, where, 'operations.%s()' % op):
                    continue
                O.equal(key + ':class', box['cls'][0], box['cls'][1], where, 'class of the result')
                if box['same']:
                    O.fail(key + ':source', where, 'operations.%s() changes its source: %s' % (op, box['same']))
                else:
                    O.ok(key + ':source')
                for a in box['obs0']:
                    O.equal(key + ':source:' + a, box['obs1'].get(a, (0, MISSING))[1], box['obs0'][a][1], where, '%s of the source after operations.%s()' % (a, op))
                if box['shared']:
                    O.fail(key + ':shared', where, 'the result of operations.%s() shares mutable objects with its source: %s' % (op, box['what']))
                else:
                    O.ok(key + ':shared')
                # same result as in place
                L.fresh()

                def twin():
                    f, rd = build(L, frm)
                    cp = L.I.bm.deepcopy(f, {})
                    res = L.I.call(L.obj_from('gerber.operations:' + op), [f] + list(args), {})
                    L.call(cp, op, *args)
                    box['t1'], box['t2'] = facts(L, res), facts(L, cp)
                oc = L.run(twin)
                if O.outcome(key + ':twin', oc, where, 'operations.%s()' % op):
                    for a in box['t2']:
                        O.equal(key + ':twin:' + a, box['t1'].get(a, MISSING), box['t2'][a], where, '%s of the result of operations.%s()' % (a, op))
    queries(O, L, builders)


def diff(a, b):
    out = []
    for k in set(a) | set(b):
        if k not in a or k not in b:
            out.append('an object is %s' % ('gone' if k in a else 'new'))
        elif a[k] != b[k]:
            for f in set(a[k][2]) | set(b[k][2]):
                if a[k][2].get(f) != b[k][2].get(f):
                    if a[k][0] == 'obj' and isinstance(f, str) and f.startswith('_') and f in MEMO:
                        continue
                    out.append('%s.%s' % (a[k][1], f))
    return sorted(out)[:4]


MEMO = ('_bounding_box', '_vertices', '_segments')


def facts(L, f):
    r = {'units': L.get(f, 'units')}
    for i, p in enumerate(L.items(L.get(f, 'primitives'))):
        for a in ('start', 'end', 'position', 'diameter', 'width', 'units'):
            try:
                r['primitive %d.%s' % (i, a)] = L.get(p, a)
            except PyRaise:
                pass
    for i, s in enumerate(L.items(L.get(f, 'statements'))):
        for a in ('x', 'y', 'units'):
            v = L.attrs(s).get(a)
            if v is not None:
                r['statement %d.%s' % (i, a)] = v
    return r


def queries(O, L, builders):
    table = {
        'GerberFile': [('bounds', None), ('size', None), ('comments', None), ('settings', None), ('primitives', None)],
        'ExcellonFile': [('primitives', None), ('bounding_box', None), ('bounds', None), ('settings', None), ('hit_count', ()), ('hit_count', (1,))],
    }
    parsed = {'GerberFile': [('bounding_box', None), ('write', ('out.gbr',))], 'ExcellonFile': [('report', ()), ('path_length', ()), ('path_length', (1,)), ('write', ('out.drl',))]}
    for name, spec, build in builders:
        cls = name.split('/')[0]
        for q, args in table[cls] + (parsed[cls] if '/' in name else []):
            key = '%s:query:%s%s' % (name, q, '' if args is None else len(args))
            where = L.where(spec, q)
            L.fresh()
            box = {}

            def ask(f):
                del L.I.st.events[:]
                return L.get(f, q) if args is None else L.call(f, q, *args)

            def written(v):
                if q != 'write':
                    return v
                out = [h for e, (p, m, h), _ in [e for e in L.I.st.events if e[0] == 'open']]
                return tuple(L.items(L.get(out[0], 'out'))) if len(out) == 1 else None

            def go():
                f, rd = build(L, 'inch')
                rd()
                before = L.snapshot([f])
                a = written(ask(f))
                mid = L.snapshot([f])
                b = written(ask(f))
                box['d'] = diff(before, mid) or diff(mid, L.snapshot([f]))
                box['v'] = (plain(L, a), plain(L, b))
            oc = L.run(go)
            O.note(L)
            if oc.kind == 'raise':
                O.undecided(key, "%s raises %s %s" % (q, oc.value, oc.why))
                continue
            if oc.kind == 'undecided':
                O.undecided(key, oc.why)
                continue
            if box['d']:
                O.fail(key, where, '%s.%s changes the file: %s' % (cls, q, box['d']))
            else:
                O.ok(key)
            if box['v'][0] is not None:
                O.equal(key + ':again', box['v'][1], box['v'][0], where, '%s.%s asked again' % (cls, q))


def plain(L, v):
    if isinstance(v, (int, float, str, tuple, Poly, SStr)):
        return v
    return None
