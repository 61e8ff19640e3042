"""C10 every block of a Gerber program is kept."""
from sa.lab import *
from sa.par import parallel
from .strs import *
from .c12 import STUBS, coord
from .c09 import bruijn, hash_

RULE = ('Abstract interpretation of the Gerber reader on programs that contain every pair of consecutive blocks from an alphabet of all block kinds, each in '
        'nine layouts (line ends, several blocks on a line, parameters together or over several lines, blank lines and spaces). The statements kept must be '
        'those of the blocks, in order, with the fields the block gives, coordinates decoded with the format in force.')
ASSUMPTIONS = ['coordinate decoding itself is C14: parse_gerber_value is an uninterpreted function of text, format and suppression here',
               'pairs of blocks in each layout stand for longer sequences']


class M(object):
    fmt, zs, op = (2, 4), 'leading', 'D02'


def alphabet():
    """[(text, is parameter, expected statement (class, fields) or None, effect)]"""
    out = []

    def code(t, cls=None, eff=None, **f):
        out.append((t, False, (cls, f) if cls else None, eff))

    def param(t, cls, eff=None, **f):
        out.append((t, True, (cls, f), eff))

    def fmt(f, z):
        def go(m):
            m.fmt, m.zs = f, z
        return go
    for t, f, z in (('FSLAX24Y24', (2, 4), 'leading'), ('FSTAX33Y33', (3, 3), 'trailing'), ('FSDAX23Y23', (2, 3), 'none'), ('FSAX25Y25', (2, 5), 'none'), ('FSLAN2G2X46Y46D2M2', (4, 6), 'leading')):
        param(t + '*', 'FSParamStmt', fmt(f, z), format=f, zero_suppression=z, notation='absolute')
    param('MOIN*', 'MOParamStmt', mode='inch')
    param('MOMM*', 'MOParamStmt', mode='metric')
    param('LPC*', 'LPParamStmt', lp='clear')
    param('LPD*', 'LPParamStmt', lp='dark')
    for t, d, sh, mods in (('ADD14C,0.1', 14, 'C', ((0.1,),)), ('ADD015R,.1X0.25', 15, 'R', ((0.1, 0.25),)), ('ADD16O,1X0.2X0.05', 16, 'O', ((1.0, 0.2, 0.05),)),
                           ('ADD117P,0.1X6X15', 117, 'P', ((0.1, 6.0, 15.0),)), ('ADD18DOT,0.5', 18, 'DOT', ((0.5,),)), ('ADD19DOT', 19, 'DOT', ((),)), ('ADD20CUSTOM', 20, 'CUSTOM', ((),)),
                           ('ADD21RECT,0.5X0.25', 21, 'RECT', ((0.5, 0.25),)), ('ADD22A,2', 22, 'A', ((2.0,),)), ('ADD23Oval_1.2-3+4,1', 23, 'Oval_1.2-3+4', ((1.0,),))):
        param(t + '*', 'ADParamStmt', d=d, shape=sh, modifiers=mods)
    param('AMDOT2*1,1,$1,0,0*', 'AMParamStmt', name='DOT2', macro='1,1,$1,0,0')
    param('AMTWO*0 note*1,1,$1,0,0*20,1,.1,0,0,1,1,0*', 'AMParamStmt', name='TWO', macro='0 note*1,1,$1,0,0*20,1,.1,0,0,1,1,0')
    param('ASAXBY*', 'ASParamStmt', mode='AXBY')
    param('ASAYBX*', 'ASParamStmt', mode='AYBX')
    param('INsome name (rev. 2)*', 'INParamStmt', name='some name (rev. 2)')
    param('LNlevel,1*', 'LNParamStmt', name='level,1')
    param('IPPOS*', 'IPParamStmt', ip='positive')
    param('IPNEG*', 'IPParamStmt', ip='negative')
    param('IR90*', 'IRParamStmt', angle=90)
    param('MIA1B0*', 'MIParamStmt', a=1, b=0)
    param('MIB1*', 'MIParamStmt', a=0, b=1)
    param('OFA1.5B-2.25*', 'OFParamStmt', a=1.5, b=-2.25)
    param('OFA-3*', 'OFParamStmt', a=-3.0, b=0.0)
    param('SFA2B1.5*', 'SFParamStmt', a=2.0, b=1.5)
    param('SFB0.5*', 'SFParamStmt', a=1.0, b=0.5)
    for fn, x, y, i, j, op in (('', '12', '-34', None, None, 'D02'), ('', '12', None, None, None, 'D01'), ('', None, '+7', None, None, 'D1'), ('G01', '1', '2', None, None, 'D01'), ('G1', '5', None, None, None, ''),
                               ('G02', '1', '2', '3', '-4', 'D02'), ('G3', '1', None, '3', None, 'D2'), ('G02', None, '1', None, '2', 'D02'), ('G01', None, None, None, None, ''), ('G03', None, None, None, None, ''),
                               ('', None, None, None, None, 'D03'), ('', None, None, None, None, 'D02'), ('', '000100', '-000200', None, None, ''), ('', None, None, None, None, 'D3')):
        txt = fn + ''.join(a + v for a, v in zip('XYIJ', (x, y, i, j)) if v is not None) + op + '*'
        out.append((txt, False, ('CoordStmt', dict(function=fn or None, x=x, y=y, i=i, j=j, op=op or None)), None))
    code('D10*', 'ApertureStmt', d=10, deprecated=False)
    code('G54D11*', 'ApertureStmt', d=11, deprecated=True)
    code('D012*', 'ApertureStmt', d=12, deprecated=False)
    code('G36*', 'RegionModeStmt', mode='on')
    code('G37*', 'RegionModeStmt', mode='off')
    code('G75*', 'QuadrantModeStmt', mode='multi-quadrant')
    code('G74*G75*', None)
    out[-1] = ('G74*G75*', False, [('QuadrantModeStmt', dict(mode='single-quadrant')), ('QuadrantModeStmt', dict(mode='multi-quadrant'))], None)
    code('G04 a note: X1Y1D01, G36 #@! 3;4=\'x"*', 'CommentStmt', comment=' a note: X1Y1D01, G36 #@! 3;4=\'x"')
    code('G4*', 'CommentStmt', comment='')
    code('G70*', 'MOParamStmt', mode='inch')
    code('G71*', 'MOParamStmt', mode='metric')
    code('G90*', 'DeprecatedStmt', line='G90*')
    code('M02*', 'EofStmt')
    code('M00*', 'EofStmt')
    code('*')
    code('G99*', 'UnknownStmt', line='G99*')
    return out


HEAD = [('FSLAX24Y24*', 1), ('MOIN*', 1), ('AMDOT*1,1,$1,0,0*', 1), ('AMCUSTOM*1,1,1,0,0*', 1), ('AMRECT*21,1,$1,$2,0,0,0*', 1), ('AMA*1,1,$1,0,0*', 1), ('AMOval_1.2-3+4*1,1,$1,0,0*', 1), ('ADD10C,0.01*', 1), ('ADD11R,0.02X0.03*', 1), ('ADD12C,0.01*', 1), ('D10*', 0)]


def lay(blocks, layout):
    """The program text: blocks are (text, is parameter)."""
    if layout in ('lines', 'crlf', 'cr'):
        e = {'lines': '\n', 'crlf': '\r\n', 'cr': '\r'}[layout]
        return ''.join(('%' + t + '%' if p else t) + e for t, p in blocks)
    if layout == 'one line':
        return ''.join('%' + t + '%' if p else t for t, p in blocks) + '\n'
    if layout == 'no end':
        return '\n'.join('%' + t + '%' if p else t for t, p in blocks)
    if layout == 'blank lines':
        return ''.join('\n  ' + ('%' + t + '%' if p else t) + ' \n\n' for t, p in blocks)
    out, i = [], 0
    if layout == 'together':
        while i < len(blocks):
            t, p = blocks[i]
            if not p:
                out.append(t + '\n')
                i += 1
                continue
            run = [t]
            while i + 1 < len(blocks) and blocks[i + 1][1] and not run[-1].startswith('AM') and not blocks[i + 1][0].startswith('AM') and len(run) < 3:
                i += 1
                run.append(blocks[i][0])
            out.append('%' + ''.join(run) + '%\n')
            i += 1
        return ''.join(out)
    if layout == 'own lines':
        return ''.join('%\n' + t + '\n%\n' if p else t + '\n' for t, p in blocks)
    if layout == 'broken':      # every * of a parameter ends a line
        return ''.join('%' + t[:-1].replace('*', '*\n') + '*\n%\n' if p else t + '\n' for t, p in blocks)


LAYOUTS = ('lines', 'crlf', 'cr', 'one line', 'no end', 'blank lines', 'together', 'own lines', 'broken')


def run(O, thorough):
    L = Lab(['gerber.rs274x'], stubs=STUBS)
    where = L.where('gerber.rs274x:GerberParser')
    alpha = alphabet()
    seq = bruijn(len(alpha), 2)
    size = 60
    jobs = [(lay_, [seq[(i + k) % len(seq)] for k in range(size + 1)]) for lay_ in LAYOUTS for i in range(0, len(seq), size)]
    if not thorough:
        jobs = [j for n, j in enumerate(jobs) if LAYOUTS.index(j[0]) in (0, 3, 6) or n % 3 == 0]

    def one(job):
        layout, ks = job
        check(O, L, where, layout, [alpha[k] for k in ks], HEAD)
    parallel(O, jobs, one)
    # codes before the first parameter, and programs without parameters
    codes = [a for a in alpha if not a[1] and a[0] not in ('G99*',) and not (a[2] and isinstance(a[2], tuple) and a[2][0] == 'CoordStmt' and a[2][1]['op'])]
    for a in codes:
        for b in codes:
            for layout in ('lines', 'one line', 'no end'):
                check(O, L, where, layout, [a, b], [], 'no parameters:')
                if not (a[0].startswith('G54') or 'D1' in a[0] + b[0]):
                    check(O, L, where, layout, [a, b, alpha[0]], [], 'first:')
    includes(O, L)


def check(O, L, where, layout, blocks, head, tag=''):
    allb = list(head) + [(b[0], b[1]) for b in blocks]
    txt = lay(allb, layout)
    names = [b[0] for b in blocks]
    key = '%s%s:%s' % (tag, layout, ' '.join(names))
    key = key[:60] + '..%08x' % hash_(key)
    L.fresh()

    def go():
        f = L.I.call(L.obj_from('gerber.rs274x:loads'), [txt], {})
        return [(L.cls_of(s), s) for s in L.items(L.get(f, 'statements'))], L.get(f, 'units')
    oc = L.run(go)
    O.note(L)
    L.I.call_log.clear()
    if not O.outcome(key, oc, where, 'reading the blocks %s laid out in %s' % (' '.join(names)[:300], layout)):
        return
    got, units = oc.value
    got = got[len(head):]
    m = M()
    if not head:     # the settings before any FS parameter are the defaults
        m.fmt, m.zs = (2, 5), 'trailing'
    want = []
    for b in blocks:
        if b[3]:
            b[3](m)
        for e in ([] if b[2] is None else b[2] if isinstance(b[2], list) else [b[2]]):
            f = dict(e[1])
            if e[0] == 'CoordStmt':
                for a in 'xyij':
                    f[a] = coord(f[a], m.fmt, m.zs) if f[a] is not None else None
                if f['op'] is not None:
                    m.op = f['op']
                elif f['x'] is not None or f['y'] is not None:
                    f['op'] = [None, m.op]
            want.append((b[0], e[0], f))
    for i in range(max(len(got), len(want))):
        g = got[i][0] if i < len(got) else 'nothing'
        w = want[i] if i < len(want) else (names[-1], 'nothing', {})
        near = ' '.join(x[0] for x in want[max(0, i - 2):i + 1])
        if g != w[1]:
            O.fail(key, where, 'the block %s (after %s; %s) is kept as %s, expected %s' % (w[0], near, layout, g, w[1]))
            return
        for a, v in w[2].items():
            x = L.get(got[i][1], a)
            if a == 'modifiers':
                x = tuple(tuple(L.items(y)) if isinstance(y, Ref) else y for y in (x if isinstance(x, tuple) else L.items(x)))
            if a == 'macro' and isinstance(x, str):
                x = x.rstrip('*')
            if O.equal('%s:%d.%s' % (key, i, a), x, v, where, '%s of the block %s (%s; %s)' % (a, w[0], near, layout)) is False:
                return
        if O.equal('%s:%d.units' % (key, i), L.get(got[i][1], 'units'), units, where, 'units of the block %s' % w[0]) is False:
            return


def includes(O, L):
    where = L.where('gerber.rs274x:GerberParser', '_parse')
    n = lambda t: coord(t, (2, 4), 'leading')
    main = '%FSLAX24Y24*%\n%MOIN*%\nX1Y1D02*\n%IFsub.gbr*%\nX4Y4D02*\nM02*\n'
    for key, fn, files, want in (
            ('file', 'dir/main.gbr', {'dir/sub.gbr': 'X2Y2D02*\nX3Y3D02*\n'}, ['1', '2', '3', '4']),
            ('nested', 'dir/main.gbr', {'dir/sub.gbr': 'X2Y2D02*\n%IFdeep.gbr*%\nX3Y3D02*\n', 'dir/deep.gbr': 'X7Y7D02*\n'}, ['1', '2', '7', '3', '4']),
            ('many', 'main.gbr', {'sub.gbr': 'X2Y2D02*\n' + '%IFleaf.gbr*%\n' * 12, 'leaf.gbr': '%IFempty.gbr*%\nX5Y5D02*\n', 'empty.gbr': ''}, ['1', '2'] + ['5'] * 12 + ['4']),
            ('no name', None, {'sub.gbr': 'X2Y2D02*\n'}, ['1', '2', '4']),
            ('loop', 'main.gbr', {'sub.gbr': 'X2Y2D02*\n%IFsub.gbr*%\n'}, None)):
        L.fresh()
        L.I.files = files

        def go():
            f = L.I.call(L.obj_from('gerber.rs274x:loads'), [main] + ([fn] if fn else []), {})
            return tuple(L.get(s, 'x') for s in L.items(L.get(f, 'statements')) if L.cls_of(s) == 'CoordStmt')
        oc = L.run(go)
        L.I.files = {}
        key = 'include:' + key
        oc.maybe = [x for x in oc.maybe if x[0] != 'IOError'] if oc.maybe else oc.maybe
        if want is None:
            if oc.kind == 'raise' and oc.value in ('IOError', 'OSError'):
                O.ok(key)
            elif oc.kind == 'undecided':
                O.undecided(key, oc.why)
            else:
                O.fail(key, where, 'a file that includes itself gives %s %s, expected IOError' % (oc.kind, show(oc.value)[:100]))
        elif O.outcome(key, oc, where, 'reading a program with an include'):
            O.equal(key, oc.value, tuple(n(t) for t in want), where, 'coordinates of a program with an include')
