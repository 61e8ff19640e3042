"""C02 unit conversion of drawing primitives."""
from sa.lab import *
from .prims import specs, read, scaled

RULE = ('Abstract interpretation of to_inch()/to_metric() of every primitive class on objects whose lengths are distinct labelled '
        'symbols (value domain: polynomial normal form over the labels, 12 significant digits). Every published length must come out '
        'as exactly label*25.4 (or /25.4) once, non-lengths unchanged, nested shapes and apertures included; a conversion to the unit '
        'already in force must change nothing; the reverse conversion must restore the initial values.')
ASSUMPTIONS = ['coefficients are compared to 12 significant digits', 'primitive lists of length 1, 2, 3 stand for all lengths']


def expect(before, f, unit):
    out = {}
    for k, (kind, v) in before.items():
        if kind == 'U':
            out[k] = (kind, unit)
        elif kind == 'K':
            out[k] = (kind, v)
        else:
            out[k] = (kind, scaled(v, f))
    return out


def run(O, thorough):
    L = Lab(['gerber.primitives', 'gerber.am_statements'])
    rots = [0, sym('rot')] if not thorough else [0, 90, 180, 270, 45, sym('rot')]
    done = set()
    for rot in rots:
        for s in specs(rot):
            tag = s.name + ('' if rot == 0 else '@rot=%s' % show(rot))
            if rot != 0 and 'rotation' not in s.attrs:
                continue
            for frm, meth, to, f in (('inch', 'to_metric', 'metric', 25.4), ('metric', 'to_inch', 'inch', 1 / 25.4),
                                     ('inch', 'to_inch', 'inch', 1.0), ('metric', 'to_metric', 'metric', 1.0)):
                L.fresh()
                box = {}

                def go():
                    o = s.build(L, frm)
                    box['b'] = read(L, o, s.attrs)
                    L.call(o, meth)
                    box['a'] = read(L, o, s.attrs)
                    box['u'] = L.get(o, 'units')
                    L.call(o, meth)
                    box['aa'] = read(L, o, s.attrs)
                    L.call(o, 'to_inch' if meth == 'to_metric' else 'to_metric')
                    L.call(o, meth)
                    box['r'] = read(L, o, s.attrs)
                    return o
                where = L.where('gerber.primitives:' + s.cls, meth)
                key = '%s:%s->%s' % (tag, frm, to)
                oc = L.run(go)
                O.note(L)
                if not O.outcome(key, oc, where, '%s.%s()' % (s.cls, meth)):
                    continue
                want = expect(box['b'], f, to)
                good = O.equal(key + ':units', box['u'], to, where, '%s.units after %s()' % (s.cls, meth))
                for k in want:
                    for stage, what in (('a', meth + '()'), ('aa', meth + '() twice'), ('r', meth + '(), back and ' + meth + '() again')):
                        got = box[stage].get(k, (None, MISSING))[1]
                        kk = '%s:%s%s' % (key, k, '' if stage == 'a' else ':' + stage)
                        if not O.equal(kk, got, want[k][1], where, '%s.%s after %s from %s' % (s.cls, k, what, frm)):
                            break
