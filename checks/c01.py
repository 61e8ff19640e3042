"""C01 unit conversion of file statements, tools and drill hits."""
import itertools

from sa.lab import *
from .prims import N, scaled

RULE = ('Abstract interpretation of to_inch()/to_metric() of every Gerber and Excellon statement class, drill tool, hit and slot, with every '
        'length a distinct labelled symbol and every optional field both present and absent. Each length must come out as label*25.4 (or /25.4) '
        'exactly once, absent fields stay absent, everything else is unchanged, the unit tag is the target unit, a conversion to the unit in '
        'force changes nothing and the reverse conversion restores the values.')
ASSUMPTIONS = ['coefficients are compared to 12 significant digits']

G = 'gerber.gerber_statements:'
X = 'gerber.excellon_statements:'
LN = lambda t: N(t)


def subsets(names):
    for r in range(len(names) + 1):
        for c in itertools.combinations(names, r):
            yield c


def entries(thorough):
    """(name, class spec, build(L), {attr: kind}, unit attribute or None)"""
    out = []

    def add(name, spec, build, attrs, unit='units'):
        out.append((name, spec, build, attrs, unit))

    def val(s, a):
        return LN(a) if a in s else None

    # Gerber
    for s in subsets(('x', 'y', 'i', 'j')):
        for fn, op in ((None, 'D01'), ('G01', 'D02'), ('G02', 'D01'), (None, 'D03'), ('G03', None)):
            add('CoordStmt/%s/%s/%s' % (''.join(s) or 'none', fn, op), G + 'CoordStmt',
                lambda L, s=s, fn=fn, op=op: L.new(G + 'CoordStmt', fn, val(s, 'x'), val(s, 'y'), val(s, 'i'), val(s, 'j'), op, None),
                {'x': 'L', 'y': 'L', 'i': 'L', 'j': 'L', 'op': 'K', 'function': 'K'})
    for s in subsets(('a', 'b')):
        for c, k in (('OFParamStmt', 'L'), ('SFParamStmt', 'K')):
            add('%s/%s' % (c, ''.join(s) or 'none'), G + c, lambda L, c=c, s=s: L.new(G + c, c[:2], val(s, 'a'), val(s, 'b')), {'a': k, 'b': k})
    d, w, h, hd, hw, hh = [N(x, '+') for x in ('d', 'w', 'h', 'hd', 'hw', 'hh')]
    rot = N('rot')
    for shape, lists in (('C', [('L', d)]), ('R', [('L', w), ('L', h)]), ('O', [('L', w), ('L', h)]), ('P', [('L', d), ('K', 6), ('K', rot)])):
        for hole in ((), (('L', hd),), (('L', hw), ('L', hh))):
            mods = list(lists) + list(hole)
            add('ADParamStmt/%s%d' % (shape, len(mods)), G + 'ADParamStmt',
                lambda L, shape=shape, mods=mods: L.new(G + 'ADParamStmt', 'AD', 10, shape, (L.list([v for _, v in mods]),)),
                {'modifiers': ('mods', [k for k, _ in mods]), 'd': 'K', 'shape': 'K'})
            if shape == 'P' and not hole:
                add('ADParamStmt/P2', G + 'ADParamStmt', lambda L: L.new(G + 'ADParamStmt', 'AD', 10, 'P', (L.list([d, 6]),)),
                    {'modifiers': ('mods', ['L', 'K']), 'd': 'K', 'shape': 'K'})
    add('ADParamStmt/bare', G + 'ADParamStmt', lambda L: L.new(G + 'ADParamStmt', 'AD', 10, 'MACRO', ''), {'modifiers': ('mods', []), 'd': 'K', 'shape': 'K'})
    for f, t in (('G70', 'G71'),):
        add('CoordStmt/unit-code', G + 'CoordStmt', lambda L: L.new(G + 'CoordStmt', 'UNITCODE', None, None, None, None, None, None), {'function': 'UC'})
    add('MOParamStmt', G + 'MOParamStmt', lambda L: L.new(G + 'MOParamStmt', 'MO', 'UNIT'), {'mode': 'U'}, None)
    add('FSParamStmt', G + 'FSParamStmt', lambda L: L.new(G + 'FSParamStmt', 'FS', 'leading', 'absolute', (2, 4)),
        {'zero_suppression': 'K', 'notation': 'K', 'format': 'K'})
    add('LPParamStmt', G + 'LPParamStmt', lambda L: L.new(G + 'LPParamStmt', 'LP', 'clear'), {'lp': 'K'})
    add('IRParamStmt', G + 'IRParamStmt', lambda L: L.new(G + 'IRParamStmt', 'IR', N('angle')), {'angle': 'K'})
    add('MIParamStmt', G + 'MIParamStmt', lambda L: L.new(G + 'MIParamStmt', 'MI', 1, 0), {'a': 'K', 'b': 'K'})
    add('IPParamStmt', G + 'IPParamStmt', lambda L: L.new(G + 'IPParamStmt', 'IP', 'negative'), {'ip': 'K'})
    add('ApertureStmt', G + 'ApertureStmt', lambda L: L.new(G + 'ApertureStmt', 12), {'d': 'K'})
    add('QuadrantModeStmt', G + 'QuadrantModeStmt', lambda L: L.new(G + 'QuadrantModeStmt', 'single-quadrant'), {'mode': 'K'})
    add('RegionModeStmt', G + 'RegionModeStmt', lambda L: L.new(G + 'RegionModeStmt', 'on'), {'mode': 'K'})
    for c, a in (('CommentStmt', 'comment'), ('UnknownStmt', 'line'), ('DeprecatedStmt', 'line')):
        add('gerber.' + c, G + c, lambda L, c=c: L.new(G + c, 'text'), {a: 'K'})
    # Excellon
    for s in subsets(('x', 'y')):
        n = ''.join(s) or 'none'
        add('CoordinateStmt/' + n, X + 'CoordinateStmt', lambda L, s=s: L.new(X + 'CoordinateStmt', val(s, 'x'), val(s, 'y')), {'x': 'L', 'y': 'L', 'mode': 'K'})
        add('EndOfProgramStmt/' + n, X + 'EndOfProgramStmt', lambda L, s=s: L.new(X + 'EndOfProgramStmt', val(s, 'x'), val(s, 'y')), {'x': 'L', 'y': 'L'})
        add('RepeatHoleStmt/' + n, X + 'RepeatHoleStmt', lambda L, s=s: L.new(X + 'RepeatHoleStmt', 5, val(s, 'x'), val(s, 'y')),
            {'count': 'K', 'xdelta': 'L', 'ydelta': 'L'})
    for s in subsets(('x_start', 'y_start', 'x_end', 'y_end')):
        add('SlotStmt/' + ('+'.join(s) or 'none'), X + 'SlotStmt',
            lambda L, s=s: L.new(X + 'SlotStmt', val(s, 'x_start'), val(s, 'y_start'), val(s, 'x_end'), val(s, 'y_end')),
            {'x_start': 'L', 'y_start': 'L', 'x_end': 'L', 'y_end': 'L'})
    add('MeasuringModeStmt', X + 'MeasuringModeStmt', lambda L: L.new(X + 'MeasuringModeStmt', 'inch'), {'units': 'U'})
    add('UnitStmt', X + 'UnitStmt', lambda L: L.new(X + 'UnitStmt', 'UNIT', 'trailing', (3, 3)), {'units': 'U', 'zeros': 'K', 'format': 'K'})
    add('ToolSelectionStmt', X + 'ToolSelectionStmt', lambda L: L.new(X + 'ToolSelectionStmt', 3, 2), {'tool': 'K', 'compensation_index': 'K'})
    add('FormatStmt', X + 'FormatStmt', lambda L: L.new(X + 'FormatStmt', 1), {'format': 'K'})
    add('VersionStmt', X + 'VersionStmt', lambda L: L.new(X + 'VersionStmt', 1), {'version': 'K'})
    add('ZAxisInfeedRateStmt', X + 'ZAxisInfeedRateStmt', lambda L: L.new(X + 'ZAxisInfeedRateStmt', N('rate', '+')), {'rate': 'K'})
    add('IncrementalModeStmt', X + 'IncrementalModeStmt', lambda L: L.new(X + 'IncrementalModeStmt', 'on'), {'mode': 'K'})
    for c in ('HeaderBeginStmt', 'HeaderEndStmt', 'RewindStopStmt', 'AbsoluteModeStmt', 'DrillModeStmt', 'RouteModeStmt', 'LinearModeStmt'):
        add(c, X + c, lambda L, c=c: L.new(X + c), {})
    return out


def mods_of(L, v):
    """Flat modifier list of an aperture definition."""
    its = L.items(v)
    if len(its) != 1:
        return ('groups', len(its))
    return tuple(L.items(its[0]))


def run(O, thorough):
    L = Lab(['gerber.gerber_statements', 'gerber.excellon_statements', 'gerber.excellon', 'gerber.cam'])
    code = {'inch': 'G70', 'metric': 'G71'}
    for name, spec, build, attrs, unit in entries(thorough):
        for frm, meth, to, f in (('inch', 'to_metric', 'metric', 25.4), ('metric', 'to_inch', 'inch', 1 / 25.4),
                                 ('inch', 'to_inch', 'inch', 1.0), ('metric', 'to_metric', 'metric', 1.0)):
            key = '%s:%s->%s' % (name, frm, to)
            where = L.where(spec, meth)
            cls = spec.split(':')[1]
            box = {}

            def rd(o):
                r = {}
                for a, k in attrs.items():
                    v = L.get(o, a)
                    r[a] = mods_of(L, v) if isinstance(k, tuple) else v
                if unit:
                    r['units'] = L.get(o, unit)
                return r

            def go():
                o = build(L)
                for a, k in attrs.items():
                    if k == 'U':
                        L.set(o, a, frm)
                    elif k == 'UC':
                        L.set(o, a, code[frm])
                if unit:
                    L.set(o, 'units', frm)
                box['b'] = rd(o)
                L.call(o, meth)
                box['a'] = rd(o)
                L.call(o, meth)
                box['aa'] = rd(o)
                L.call(o, 'to_inch' if meth == 'to_metric' else 'to_metric')
                L.call(o, meth)
                box['r'] = rd(o)
            L.fresh()
            oc = L.run(go)
            O.note(L)
            if not O.outcome(key, oc, where, '%s.%s()' % (cls, meth)):
                continue
            want = {}
            for a, k in attrs.items():
                b = box['b'][a]
                if k == 'L':
                    want[a] = scaled(b, f)
                elif k == 'U':
                    want[a] = to
                elif k == 'UC':
                    want[a] = code[to]
                elif isinstance(k, tuple):
                    want[a] = tuple(scaled(x, f) if kk == 'L' else x for kk, x in zip(k[1], b))
                else:
                    want[a] = b
            if unit:
                want['units'] = to
            for a in want:
                for stage, what in (('a', meth + '()'), ('aa', meth + '() twice'), ('r', meth + '(), back and ' + meth + '() again')):
                    kk = '%s:%s%s' % (key, a, '' if stage == 'a' else ':' + stage)
                    if not O.equal(kk, box[stage][a], want[a], where, '%s.%s after %s from %s' % (cls, a, what, frm)):
                        break
    hits(O, L)


def hits(O, L):
    E = 'gerber.excellon:'
    for kind in ('tool', 'tool-no-diameter', 'hit', 'rout slot', 'G85 slot'):
        for frm, meth, to, f in (('inch', 'to_metric', 'metric', 25.4), ('metric', 'to_inch', 'inch', 1 / 25.4),
                                 ('inch', 'to_inch', 'inch', 1.0), ('metric', 'to_metric', 'metric', 1.0)):
            L.fresh()
            box = {}
            d = N('d', '+')

            def go():
                st = L.new('gerber.cam:FileSettings', units=frm)
                tool = L.new(X + 'ExcellonTool', st, number=3, diameter=None if 'no-' in kind else d, rpm=N('rpm', '+'), feed_rate=N('feed', '+'),
                             max_hit_count=N('max', '+'), plated='plated')
                o = tool
                pts = {}
                if kind == 'hit':
                    o = L.new(E + 'DrillHit', tool, (N('x'), N('y')))
                    pts = {'position': (N('x'), N('y'))}
                elif 'slot' in kind:
                    o = L.new(E + 'DrillSlot', tool, (N('x'), N('y')), (N('u'), N('v')), L.obj_from(E + 'DrillSlot.' + ('TYPE_ROUT' if 'rout' in kind else 'TYPE_G85')))
                    pts = {'start': (N('x'), N('y')), 'end': (N('u'), N('v'))}

                def rd():
                    r = dict((a, L.get(o, a)) for a in pts)
                    r['tool.diameter'] = L.get(tool, 'diameter')
                    for a in ('number', 'rpm', 'max_hit_count', 'plated'):
                        r['tool.' + a] = L.get(tool, a)
                    r['tool.settings.units'] = L.get(L.get(tool, 'settings'), 'units')
                    return r
                L.call(o, meth)
                box['a'] = rd()
                L.call(o, meth)
                box['aa'] = rd()
                L.call(o, 'to_inch' if meth == 'to_metric' else 'to_metric')
                L.call(o, meth)
                box['r'] = rd()
                want = dict((a, scaled(v, f)) for a, v in pts.items())
                want.update({'tool.diameter': None if 'no-' in kind else d * f, 'tool.number': 3, 'tool.rpm': N('rpm', '+'), 'tool.max_hit_count': N('max', '+'),
                             'tool.plated': 'plated', 'tool.settings.units': to})
                box['w'] = want
            cls = {'hit': E + 'DrillHit'}.get(kind, E + 'DrillSlot' if 'slot' in kind else X + 'ExcellonTool')
            where = L.where(cls, meth)
            key = '%s:%s->%s' % (kind, frm, to)
            oc = L.run(go)
            O.note(L)
            if not O.outcome(key, oc, where, meth):
                continue
            for a, w in box['w'].items():
                for stage in ('a', 'aa', 'r'):
                    if not O.equal('%s:%s%s' % (key, a, '' if stage == 'a' else ':' + stage), box[stage][a], w, where, '%s after %s from %s' % (a, meth, frm)):
                        break
