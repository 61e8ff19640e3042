"""C15 number settings stay consistent."""
import itertools

from sa.lab import *
from .strs import *

RULE = ('Abstract interpretation of FileSettings and CamFile over every combination of constructor arguments from valid and invalid values, and every history of '
        'up to three assignments by attribute and by key: zeros and zero_suppression stay opposite and follow the last assignment, other settings '
        'stay as they were, invalid values are refused with ValueError and unknown keys with KeyError without a change, reading by key and by attribute agree, '
        'equality is equality of all settings, and files hand their settings on.')
ASSUMPTIONS = ['settings are only written by the operations of the histories; operations on different settings do not depend on longer histories']

FS = 'gerber.cam:FileSettings'
OPP = {'leading': 'trailing', 'trailing': 'leading'}
VALS = {'notation': ('absolute', 'incremental'), 'units': ('inch', 'metric'), 'zero_suppression': ('leading', 'trailing'), 'zeros': ('leading', 'trailing'),
        'format': ((2, 4), (3, 5)), 'angle_units': ('degrees', 'radians')}
BAD = {'notation': ('Absolute', 'relative', '', None), 'units': ('in', 'mm', 'INCH', None), 'zero_suppression': ('both', '', 'Leading'), 'zeros': ('both', '', 'Leading'),
       'format': ((), (2,), (2, 4, 1)), 'angle_units': ('deg', '', None)}
DEF = {'notation': 'absolute', 'units': 'inch', 'zero_suppression': 'trailing', 'zeros': 'leading', 'format': (2, 5), 'angle_units': 'degrees'}
KEYS = sorted(DEF)


def state(L, s, by='attr'):
    return dict((k, tup(L, L.get(s, k) if by == 'attr' else L.I.bm.getitem(s, k))) for k in KEYS)


def tup(L, v):
    return tuple(L.items(v)) if isinstance(v, Ref) else v


def run(O, thorough):
    L = Lab(['gerber.cam', 'gerber.rs274x', 'gerber.excellon', 'gerber.ipc356'])
    wi = L.where(FS, '__init__')

    def both(s):
        return state(L, s), state(L, s, 'key')

    def expect(key, oc, want, where, what):
        if O.outcome(key, oc, where, what):
            for n, got in zip(('attribute', 'key'), oc.value):
                for k in KEYS:
                    O.equal('%s:%s:%s' % (key, n, k), got[k], want[k], where, '%s read by %s after %s' % (k, n, what))

    def refused(key, oc, exc, where, what):
        if oc.kind == 'undecided':
            O.undecided(key, oc.why)
        elif oc.kind != 'raise' or oc.value != exc:
            O.fail(key, where, '%s is not refused with %s but %s' % (what, exc, oc.value if oc.kind == 'raise' else 'accepted'))
        else:
            O.ok(key)
    # constructor: all valid combinations
    zs = [{}, {'zero_suppression': 'leading'}, {'zero_suppression': 'trailing'}, {'zeros': 'leading'}, {'zeros': 'trailing'}, {'zeros': 'leading', 'zero_suppression': 'trailing'},
          {'zeros': 'trailing', 'zero_suppression': 'leading'}]
    for n, u, z, f, a in itertools.product((None,) + VALS['notation'], (None,) + VALS['units'], zs, (None,) + VALS['format'], (None,) + VALS['angle_units']):
        kw = dict((k, v) for k, v in (('notation', n), ('units', u), ('format', f), ('angle_units', a)) if v is not None)
        kw.update(z)
        want = dict(DEF, **kw)
        if 'zeros' in z:
            want['zero_suppression'] = OPP[z['zeros']]
        elif 'zero_suppression' in z:
            want['zeros'] = OPP[z['zero_suppression']]
        L.fresh()
        what = 'FileSettings(%s)' % ', '.join('%s=%r' % i for i in sorted(kw.items()))
        expect('new:' + what, L.run(lambda: both(L.new(FS, **kw))), want, wi, what)
    L.fresh()
    expect('new:positional', L.run(lambda: both(L.new(FS, 'incremental', 'metric', 'leading', (3, 4), None, 'radians'))),
           dict(notation='incremental', units='metric', zero_suppression='leading', zeros='trailing', format=(3, 4), angle_units='radians'), wi, 'FileSettings with positional arguments')
    L.fresh()
    expect('new:no suppression', L.run(lambda: both(L.new(FS, zero_suppression='none'))), dict(DEF, zero_suppression='leading', zeros='trailing'), wi, 'FileSettings(zero_suppression="none")')
    for k in KEYS:
        for v in BAD[k]:
            if k == 'zero_suppression' or v is None and k in ('zeros',):
                continue
            L.fresh()
            refused('new:%s=%r' % (k, v), L.run(lambda: L.new(FS, **{k: v})), 'ValueError', wi, 'FileSettings(%s=%r)' % (k, v))
    for v in ('leading', 'trailing'):
        L.fresh()
        refused('new:same %s' % v, L.run(lambda: L.new(FS, zeros=v, zero_suppression=v)), 'ValueError', wi, 'FileSettings with equal zeros and zero_suppression')
    # histories of assignments
    ops = [(by, k, v) for by in ('attr', 'key') for k in KEYS for v in VALS[k]]
    bad = [('key', k, v) for k in KEYS for v in BAD[k]]
    ws = L.where(FS, '__setitem__')

    def history(h):
        key = 'history:' + ' '.join('%s.%s=%s' % o for o in h)
        L.fresh()
        want = dict(DEF)

        def go():
            s = L.new(FS)
            for by, k, v in h:
                if by == 'attr':
                    L.set(s, k, v)
                else:
                    L.I.bm.setitem(s, k, v)
            return both(s)
        for by, k, v in h:
            want[k] = v
            if k == 'zeros':
                want['zero_suppression'] = OPP[v]
            if k == 'zero_suppression':
                want['zeros'] = OPP[v]
        expect(key, L.run(go), want, ws, 'the assignments %s' % ', '.join('%s %s=%r' % o for o in h))
    for r in (1, 2):
        for h in itertools.product(ops, repeat=r):
            history(h)
    zops = [o for o in ops if o[1] in ('zeros', 'zero_suppression')]
    for h in itertools.product(zops, repeat=3 if not thorough else 4):
        history(h)
    for (_, k, v) in bad:
        for z in ('leading', 'trailing'):
            L.fresh()
            box = {}

            def go():
                s = box['s'] = L.new(FS, notation='incremental', units='metric', zeros=z, format=(3, 4), angle_units='radians')
                L.I.bm.setitem(s, k, v)
            oc = L.run(go)
            refused('set:%s=%r:%s' % (k, v, z), oc, 'ValueError', ws, 'settings[%r] = %r' % (k, v))
            if oc.kind == 'raise' and 's' in box:
                oc = L.run(lambda: both(box['s']))
                expect('kept:%s=%r:%s' % (k, v, z), oc, dict(notation='incremental', units='metric', zeros=z, zero_suppression=OPP[z], format=(3, 4), angle_units='radians'), ws, 'a refused settings[%r] = %r' % (k, v))
    for k in ('unit', 'zero', '', 'Notation', '_zeros', 'angle'):
        L.fresh()
        s = L.new(FS)
        refused('get key %r' % k, L.run(lambda: L.I.bm.getitem(s, k)), 'KeyError', L.where(FS, '__getitem__'), 'settings[%r]' % k)
        L.fresh()
        s = L.new(FS)
        refused('set key %r' % k, L.run(lambda: L.I.bm.setitem(s, k, 'leading')), 'KeyError', ws, 'settings[%r] = ...' % k)
    # equality
    we = L.where(FS, '__eq__')
    alts = [dict(zip(('notation', 'units', 'zero_suppression', 'format', 'angle_units'), c)) for c in itertools.product(
        VALS['notation'], VALS['units'], VALS['zero_suppression'], VALS['format'] + ((4, 2),), VALS['angle_units'])]
    for i, a in enumerate(alts):
        for j, b in enumerate(alts):
            for op in ('Eq', 'NotEq'):
                L.fresh()

                def go():
                    mk = lambda d: L.new(FS, notation=d['notation'], units=d['units'], zero_suppression=d['zero_suppression'], format=d['format'], angle_units=d['angle_units'])
                    return L.I.truth(L.I.bm.compare(op, mk(a), mk(b)))
                oc = L.run(go)
                key = 'equal:%d %s %d' % (i, op, j)
                if O.outcome(key, oc, we, 'comparing settings'):
                    O.equal(key, oc.value, (i == j) == (op == 'Eq'), we, '%s %s %s' % (a, op, b))
    files(O, L)
    O.note(L)


def files(O, L):
    """Files take over their settings and give them back."""
    wc = L.where('gerber.cam:CamFile', 'settings')
    CAM = ('notation', 'units', 'zero_suppression', 'format')
    kinds = (('CamFile', lambda s: L.new('gerber.cam:CamFile', settings=s)), ('GerberFile', lambda s: L.new('gerber.rs274x:GerberFile', L.list([]), s, L.list([]), L.list([]))),
             ('ExcellonFile', lambda s: L.new('gerber.excellon:ExcellonFile', L.list([]), L.dict(), L.list([]), s)))
    for name, mk in kinds:
        for n, u, z, f in itertools.product(VALS['notation'], VALS['units'], VALS['zero_suppression'], VALS['format']):
            L.fresh()
            key = 'file:%s:%s %s %s %s' % (name, n, u, z, f)

            def go():
                s = L.new(FS, notation=n, units=u, zero_suppression=z, format=f)
                c = mk(s)
                t = L.get(c, 'settings')
                before = [state(L, t)] + [dict((k, tup(L, L.get(c, k))) for k in ('notation', 'units', 'zero_suppression', 'zeros', 'format'))]
                other = 'inch' if u == 'metric' else 'metric'
                L.call(c, 'to_' + other)
                L.set(c, 'units', other)
                after = state(L, L.get(c, 'settings'))
                return before, after, state(L, s)
            oc = L.run(go)
            if not O.outcome(key, oc, wc, 'settings of a ' + name):
                continue
            (st, at), after, src = oc.value
            want = dict(notation=n, units=u, zero_suppression=z, zeros=OPP[z], format=f, angle_units='degrees')
            for k in KEYS:
                O.equal('%s:%s' % (key, k), st[k], want[k], wc, '%s in the settings of a %s' % (k, name))
                O.equal('%s:%s after' % (key, k), after[k], want[k] if k != 'units' else ('inch' if u == 'metric' else 'metric'), wc, '%s in the settings of a %s whose units changed' % (k, name))
                O.equal('%s:%s source' % (key, k), src[k], want[k], wc, '%s of the settings a %s was made with' % (k, name))
                if k in at:
                    O.equal('%s:%s attribute' % (key, k), at[k], want[k], wc, '%s of a %s' % (k, name))
    L.fresh()
    oc = L.run(lambda: state(L, L.get(L.new('gerber.cam:CamFile'), 'settings')))
    if O.outcome('file:default', oc, wc, 'settings of a file without settings'):
        for k in KEYS:
            O.equal('file:default:' + k, oc.value[k], DEF[k], wc, '%s of a file made without settings' % k)
    for u, a in itertools.product(VALS['units'], VALS['angle_units']):
        L.fresh()
        oc = L.run(lambda: state(L, L.get(L.new('gerber.ipc356:IPCNetlist', L.list([]), L.new(FS, units=u, angle_units=a)), 'settings')))
        if O.outcome('netlist:%s %s' % (u, a), oc, wc, 'settings of a netlist'):
            O.equal('netlist:%s %s' % (u, a), (oc.value['units'], oc.value['angle_units']), (u, a), L.where('gerber.ipc356:IPCNetlist', 'settings'), 'units and angle units of a netlist')
