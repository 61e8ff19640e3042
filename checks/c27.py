"""C27 tool tables and settings files are read field by field."""
import itertools
import math

from sa.lab import *
from .strs import *

RULE = ('Abstract interpretation of the readers of tool tables, tool reports and settings files on lines whose numbers are symbolic texts, in every notation, mixed with other '
        'lines in every place, compared with the tools and settings stated by them.')
ASSUMPTIONS = ['numbers are written without sign and exponent']
T = 'gerber.excellon_tool:'
S = 'gerber.excellon_settings:'
PLATED = {'PLATED': 'plated', 'NON_PLATED': 'nonplated', 'OPTIONAL': 'optional', 'P': 'plated', 'N': 'nonplated', 'x': 'plated', '-': 'nonplated', '?': None}
ATTRS = ('number', 'diameter', 'plated', 'feed_rate', 'rpm', 'hit_count', 'retract_rate', 'max_hit_count', 'depth_offset')


def real(label):
    return Hole('t:' + label, DIG + '.', 1, None, sym(label, '+'), DIG + '.')


def comment(n, plated, unit, prefix=''):
    lab = '%s%s' % (n, unit)
    return [prefix + 'Holesize %d. = ' % n, real('s' + lab), ' Tolerance = +', real('x' + lab), '/-', real('y' + lab), ' %s %s Quantity = 12' % (plated, unit)], sym('s' + lab, '+'), 'mm' if unit == 'MM' else 'mil'


def tabled(n, plated, gap='   '):
    lab = '%dt' % n
    return [real('s' + lab), gap + plated + gap + 'T%02d' % n + gap, real('x' + lab), gap, real('y' + lab)], sym('s' + lab, '+'), 'mil'


def length(v, unit, to):
    if unit == 'mil':
        return v * 0.001 if to == 'inch' else v * 0.0254
    return v.div(25.4) if to == 'inch' else v


def close(O, key, got, want, where, what):
    """Equal up to the rounding of the conversion factor."""
    if is_num(want) or isinstance(want, Poly):
        try:
            r = Poly.of(got).div(want) if isinstance(want, Poly) else None
            c = Poly.of(r)
            if set(c.terms) <= {()} and abs(c.terms.get((), 0) - 1) < 1e-9:
                O.ok(key)
                return
        except Exception:
            pass
    O.equal(key, got, want, where, what)


JUNK = ['', 'Tool table', '1 2 3', 'Holesize 4. = 10 MILS', ';', 'T01', 'P T01 0 0', '=====', 'SIZE PLATED TOOL TOL']


def exact(n, plated, unit, prefix=''):
    """A hole without tolerances."""
    t, v, u = comment(n, plated, unit, prefix)
    return [x if not isinstance(x, Hole) or i == 1 else '0.000' for i, x in enumerate(t)], v, u


def entries():
    for unit, plated in (('MILS', 'OPTIONAL'), ('MM', 'PLATED'), ('MM', 'NON_PLATED'), ('MM', 'OPTIONAL')):
        yield 'exact %s %s 3' % (unit, plated), 3, plated, exact(3, plated, unit)
        yield 'T exact %s %s 3' % (unit, plated), 3, plated, exact(3, plated, unit, 'T03 ')
    for unit in ('MILS', 'MM'):
        for plated in ('PLATED', 'NON_PLATED', 'OPTIONAL'):
            for n in (1, 7, 12, 99):
                yield '%s %s %d' % (unit, plated, n), n, plated, comment(n, plated, unit)
                yield 'T %s %s %d' % (unit, plated, n), n, plated, comment(n, plated, unit, 'T%02d ' % n)
                yield 'T short %s %s %d' % (unit, plated, n), n, plated, comment(n, plated, unit, 'T%d ' % n)
    for plated in ('P', 'N'):
        for n in (1, 7, 12, 99):
            yield 'table %s %d' % (plated, n), n, plated, tabled(n, plated)
            yield 'narrow table %s %d' % (plated, n), n, plated, tabled(n, plated, ' ')


def tools(L, d):
    out = {}
    for k in L.items(d):
        o = L.I.bm.getitem(d, k)
        have = L.attrs(o)
        out[k] = {a: have.get(a) for a in ATTRS}
    return out


def reading(O, L, key, fn, data, units, want, where):
    """want: {number: {attribute: value}}"""
    L.fresh()

    def go():
        a = [data] if units == 'default' else [data, L.new('gerber.cam:FileSettings', units=units)]
        return tools(L, L.I.call(L.obj_from(fn), a, {}))
    oc = L.run(go)
    if not O.outcome(key, oc, where, 'reading ' + key):
        return
    O.equal(key + ':numbers', tuple(sorted(oc.value)), tuple(sorted(want)), where, 'tools of ' + key)
    for n in want:
        for a in ATTRS:
            if n in oc.value:
                close(O, '%s:%d:%s' % (key, n, a), oc.value[n][a], want[n].get(a, 0 if a == 'hit_count' else None), where, '%s of tool %d of %s' % (a, n, key))


def definitions(O, L):
    where = L.where(T + 'ExcellonToolDefinitionParser', '_parse')
    es = list(entries())
    for name, n, plated, (t, v, unit) in es:
        for units in ('inch', 'metric', 'default'):
            want = {n: {'number': n, 'diameter': length(v, unit, 'metric' if units == 'metric' else 'inch'), 'plated': PLATED[plated]}}
            reading(O, L, 'tool definition %s in %s' % (name, units), T + 'loads', text(*t), units, want, where)
            for i, j in enumerate(JUNK):
                if (len(name) + i) % 3 == 0:
                    reading(O, L, 'tool definition %s in %s with other line %d' % (name, units, i), T + 'loads', text(j + '\n  ', *(t + ['  \n', j, '\n'])), units, want, where)
    for (a, b) in itertools.combinations(es[::5] + es[-3:], 2):
        for units in ('inch', 'metric'):
            want = {}
            for name, n, plated, (t, v, unit) in (a, b):
                want[n] = {'number': n, 'diameter': length(v, unit, units), 'plated': PLATED[plated]}
            reading(O, L, 'tool definitions %s and %s in %s' % (a[0], b[0], units), T + 'loads', text(*(a[3][0] + ['\n'] + b[3][0] + ['\n'])), units, want, where)
    reading(O, L, 'empty tool definitions', T + 'loads', '', 'inch', {}, where)
    reading(O, L, 'tool definitions without tools', T + 'loads', '\n'.join(JUNK), 'inch', {}, where)


HEAD = '====  ====  ====  ====  =====  ==='


def row(n, label, plated, gap='  ', widths=(3, 2, 1)):
    f, s, q = [[dig('%s%s%d' % (label, k, i), nonzero=i == 0) for i in range(w)] for k, w in zip('frq', widths)]
    v = lambda ds: sum((Poly.of(d.val) * 10 ** (len(ds) - 1 - i) for i, d in enumerate(ds)), Poly.of(0))
    t = ['%d' % n, gap, real('s' + label), gap + plated + gap] + f + [gap] + s + [gap] + q
    return t, {n: {'number': n, 'diameter': sym('s' + label, '+'), 'plated': PLATED[plated], 'feed_rate': v(f), 'rpm': v(s)}}


def reports(O, L):
    where = L.where(T + 'ExcellonReportParser', '_parse')
    for plated in 'x-?':
        for units in ('inch', 'metric', 'default'):
            for n in (1, 15):
                for gap in (' ', '    '):
                    t, want = row(n, 'a', plated, gap)
                    key = 'report with plating %s of tool %d in %s%s' % (plated, n, units, ' wide' if len(gap) > 1 else '')
                    reading(O, L, key, T + 'loads_rep', text('Report\n\n' + HEAD + '\n', *(t + ['\n'])), units, want, where)
                    # only rows after the head count, and lines that are no rows do not
                    u, w2 = row(n + 1, 'b', 'x')
                    reading(O, L, key + ' amid others', T + 'loads_rep', text(*(u + ['\n1 2 3 4 5 6\n', HEAD, '\n   '] + t + ['\n\n=====\n' + HEAD + '\nTotal: 5\n'] + row(n + 2, 'c', '-')[0])), units, {**want, **row(n + 2, 'c', '-')[1]}, where)
    # rows of more or fewer fields are none; zeros are values
    for other in ('4 1.5 x 100 200 7 8\n', '4 1.5 x 100 200\n', '4 1.5 x 100 200 7 remark\n', '4 1.5 - - - - - -\n', '4\n', '= 4 1.5 x 1 2\n'):
        for first in (False, True):
            t, want = row(3, 'a', '-')
            reading(O, L, 'report with the line %r%s' % (other, ' first' if first else ''), T + 'loads_rep', text(HEAD + '\n' + (other if first else ''), *(t + ['\n' + ('' if first else other)])), 'inch', want, where)
    reading(O, L, 'report with zeros', T + 'loads_rep', HEAD + '\n3 0.5 x 0 0 0\n4 0 - 0 5 1\n5 1.0 x 7 0 0\n', 'inch',
            {n: {'number': n, 'diameter': d, 'plated': PLATED[q], 'feed_rate': f, 'rpm': s} for n, d, q, f, s in ((3, .5, 'x', 0, 0), (4, 0.0, '-', 0, 5), (5, 1.0, 'x', 7, 0))}, where)
    for widths in itertools.product((1, 3, 5), repeat=3):
        t, want = row(3, 'a', 'x', widths=widths)
        reading(O, L, 'report with numbers of %d, %d and %d digits' % widths, T + 'loads_rep', text(HEAD + '\n', *t), 'inch', want, where)
    reading(O, L, 'report without head', T + 'loads_rep', text(*(row(1, 'a', 'x')[0])), 'inch', {}, where)
    reading(O, L, 'empty report', T + 'loads_rep', '', 'inch', {}, where)


def settings(O, L):
    where = L.where(S + 'ExcellonSettingsParser', 'parse_raw')
    lines = {'units': [('OUTPUT-UNITS ENGLISH', 'inch'), ('OUTPUT-UNITS METRIC', 'metric')], 'notation': [('COORDINATES ABSOLUTE', 'absolute'), ('COORDINATES INCREMENTAL', 'incremental')],
             'int': [('INTEGER-PLACES %d' % i, i) for i in range(1, 7)], 'dec': [('DECIMAL-PLACES %d' % i, i) for i in range(1, 8)]}
    other = ['', 'MACHINE-TOOL', 'X 1', '# COORDINATES ABSOLUTE NOW', 'LEADER 12', 'COORDINATES-2 INCREMENTAL']
    n = 0
    for combo in itertools.product(*[lines[k] for k in ('units', 'notation', 'int', 'dec')]):
        n += 1
        ls = [c[0] for c in combo]
        ls = ls[n % 4:] + ls[:n % 4]
        if n % 3:
            ls.insert(n % 5, other[n % len(other)])
            ls.insert(0, other[n % 5])
        if n % 2:
            ls = ['  ' + '   '.join(l.split(' ')) + ' ' for l in ls]
        key = 'settings file %s' % ' '.join(str(c[1]) for c in combo)
        L.fresh()

        def go():
            f = L.I.call(L.obj_from(S + 'loads'), ['\n'.join(ls) + '\n'], {})
            return L.get(f, 'units'), L.get(f, 'notation'), L.get(f, 'format')
        oc = L.run(go)
        if O.outcome(key, oc, where, 'reading ' + key):
            u, a, f = oc.value
            f = f if isinstance(f, tuple) else tuple(L.items(f))
            O.equal(key, (u, a, f), (combo[0][1], combo[1][1], (combo[2][1], combo[3][1])), where, key)


def run(O, thorough):
    L = Lab(['gerber.excellon_tool', 'gerber.excellon_settings', 'gerber.excellon_statements', 'gerber.cam'])
    definitions(O, L)
    reports(O, L)
    settings(O, L)
    O.note(L)
