"""C22 layers get the class of their names and boards the order of their layers."""
import itertools
import os
import re

from sa.lab import *
from sa.par import parallel
from .strs import *

RULE = ('Abstract interpretation of layers.py and pcb.py: layer classes are guessed for every known name and extension in many surroundings and compared with '
        'the table of known names; sort_layers and the queries of PCB are run over all pairs of classes, all orders of small sets and longer lists, and '
        'compared with the stated order; boards are loaded from recorded directories.')
ASSUMPTIONS = ['which names belong to which class is the table below, taken over from the package']
LY = 'gerber.layers:'

EXT = {'top': 'gtl cmp top', 'bottom': 'gbl sld bot sol bottom', 'internal': 'in gt1 gt2 gt3 gt4 gt5 gt6 g1 g2 g3 g4 g5 g6', 'topsilk': 'gto sst plc ts skt topsilk',
       'bottomsilk': 'gbo ssb pls bs skb bottomsilk', 'topmask': 'gts stc tmk smt tr topmask', 'bottommask': 'gbs sts bmk smb br bottommask', 'toppaste': 'gtp tm toppaste',
       'bottompaste': 'gbp bm bottompaste', 'outline': 'gko outline', 'ipc_netlist': 'ipc', 'drawing': 'fab'}
NAMES = {'top': 'art01,top,GTL,layer1,soldcom,comp,F.Cu', 'bottom': 'art02,bottom,bot,GBL,layer2,soldsold,B.Cu',
         'internal': 'art,internal,pgp,pwr,gnd,ground,gp1,gp2,gp3,gp4,gt5,gp6,In1.Cu,In2.Cu,In3.Cu,In4.Cu,group3,group4,group5,group6,group7,group8',
         'topsilk': 'sst01,topsilk,silk,slk,sst,F.SilkS', 'bottomsilk': 'bsilk,ssb,botsilk,bottomsilk,B.SilkS',
         'topmask': 'sm01,cmask,tmask,mask1,maskcom,topmask,mst,F.Mask', 'bottommask': 'sm,bmask,mask2,masksold,botmask,bottommask,msb,B.Mask',
         'toppaste': 'sp01,toppaste,pst,F.Paste', 'bottompaste': 'sp02,botpaste,bottompaste,psb,B.Paste', 'outline': 'BDR,border,out,outline,Edge.Cuts',
         'drawing': 'assembly drawing,assembly,fabrication,fab drawing,fab'}
CLASSES = ['outline', 'toppaste', 'topsilk', 'topmask', 'top', 'internal', 'bottom', 'bottommask', 'bottomsilk', 'bottompaste', 'drill', 'drawing', 'unknown', 'ipc_netlist']
ORDER = CLASSES[:10]
AFTER = ['drill', 'drawing']


DOTTED = [m for v in NAMES.values() for n in v.split(',') if '.' in n for m in (n, n.upper(), n.replace('F.', 'F_').replace('B.', 'B_'))]


def table():
    """Names for which no other class applies."""
    out = []
    for c, v in EXT.items():
        out += [('x.' + e, c) for e in v.split()] + [('my-board.rev.' + e.upper(), c) for e in v.split()]
    for c, v in NAMES.items():
        for n in v.split(','):
            for f in ('%s.gbr', '%s', 'board-%s.gbr', 'my.board.%s.pho', '%s-v2.gbr', 'a-b-%s.x.art'):
                out.append((f % n, c))
                out.append(((f % n).upper(), c))
                out.append(((f % n).replace('F.', 'F_').replace('B.', 'B_'), c))
    # some endings of these decide by themselves
    known = [e for v in EXT.values() for e in v.split()]
    return [(n, c) for n, c in dict.fromkeys(out) if '.' not in n or n not in DOTTED and n.rsplit('.', 1)[1].lower() not in known or n.startswith(('x.', 'my-board.rev.'))]


NONE = ['x.gbr', 'board.drl', 'readme.txt', 'stop.gbr', 'topology.gbr', 'routing.pho', 'Makefile', '', '.hidden', 'topx.gbr', 'xbot.gbr']


def guess(O, L):
    where = L.where(LY + 'guess_layer_class')
    for name, want in table() + [(n, 'unknown') for n in NONE]:
        for d in (('', '/top/gtl/') if name.startswith('x.') else ('', 'dir/', '/top/gtl/', '/a b/bottom.gbl/')[len(name) % 4:][:1]):
            key = 'class of %s%s' % (d, name)
            L.fresh()
            L.I.files, L.I.dirs = {d + name: 'G04 a line*\n'}, {}
            oc = L.run(lambda: L.I.call(L.obj_from(LY + 'guess_layer_class'), [d + name], {}))
            if O.outcome(key, oc, where, 'guessing the ' + key):
                O.equal(key, oc.value, want, where, key)
    # hints given by the user: content first, then regular expressions and names in order
    H = L.obj_from(LY + 'hints')
    hint = L.obj_from(LY + 'Hint')
    for n, (first, content, regex, name, text, want) in enumerate([
            (True, ['zorro'], '', 'x.gbr', 'G04 layer Zorro here*\n', 'mine'), (True, ['zorro'], '', 'x.gtl', 'a\nb\nG04 ZORRO*\n', 'mine'), (True, ['zorro'], '', 'x.gtl', 'a\nb\n', 'top'),
            (False, ['q', 'zorro'], '', 'x.gtl', 'zorro', 'mine'), (True, [], r'^pcb\d+', 'PCB12.gtl', '', 'mine'), (False, [], r'^pcb\d+', 'pcb12.gtl', '', 'top'),
            (True, [], r'^pcb\d+', 'pcb.gtl', '', 'top'), (True, [], 'dir', 'x.gtl', '', 'top')]):
        key = 'class by user hint %d' % n
        L.fresh()
        L.I.files, L.I.dirs = {'dir/' + name: text}, {}

        def go():
            h = L.I.call(hint, [], {'layer': 'mine', 'ext': L.list([]), 'name': L.list([]), 'regex': regex, 'content': L.list(content)})
            L.call(H, *(('insert', 0, h) if first else ('append', h)))
            return L.I.call(L.obj_from(LY + 'guess_layer_class'), ['dir/' + name], {})
        del L.I.st.events[:]
        oc = L.run(go)
        if O.outcome(key, oc, where, 'guessing the ' + key):
            O.equal(key, oc.value, want, where, key)
            for e in L.I.st.events:
                if e[0] == 'open':
                    O.equal(key + ':closed', L.get(e[1][2], 'closed'), True, where, 'closed after reading')
                    O.equal(key + ':mode', (e[1][0], 'w' in e[1][1]), ('dir/' + name, False), where, 'file read for its content')


def made(O, L):
    """Layers made of files."""
    kinds = {'GerberFile': ('gerber.rs274x:GerberFile', 6), 'ExcellonFile': ('gerber.excellon:ExcellonFile', 5), 'IPCNetlist': ('gerber.ipc356:IPCNetlist', 0)}
    names = ['x.gtl', 'x.gbl', 'board.g2', 'brd/in17-x.in', '/b9/in.3/internal.gbr', 'x.drl', 'x.ipc', 'y.gko', 'noext', None]
    where = L.where(LY + 'PCBLayer', 'from_cam')
    cls = {'x.gtl': 'top', 'x.gbl': 'bottom', 'board.g2': 'internal', 'brd/in17-x.in': 'internal', '/b9/in.3/internal.gbr': 'internal', 'x.ipc': 'ipc_netlist', 'y.gko': 'outline'}
    order = {'board.g2': 2, 'brd/in17-x.in': 17, '/b9/in.3/internal.gbr': 0}
    for kind, name in itertools.product(kinds, names):
        key = 'layer of %s %s' % (kind, name)
        L.fresh()
        L.I.files, L.I.dirs = {}, {}
        box = {}

        def go():
            fs = L.new('gerber.cam:FileSettings')
            if kind == 'GerberFile':
                f = L.new(kinds[kind][0], L.list([]), fs, L.list([L.new('gerber.primitives:Circle', (sym('x'), sym('y')), sym('d', '+'))]), L.dict(), name)
            elif kind == 'ExcellonFile':
                f = L.new(kinds[kind][0], L.list([]), L.dict(), L.list([]), fs, name)
            else:
                f = L.new(kinds[kind][0], L.list([]), fs)
                L.set(f, 'filename', name)
            box['f'] = f
            return L.I.call(L.get(L.obj_from(LY + 'PCBLayer'), 'from_cam'), [f], {})
        oc = L.run(go)
        oc.maybe = [m for m in oc.maybe or [] if m[0] != 'IOError']
        if not O.outcome(key, oc, where, 'making a ' + key):
            continue
        ly, f = oc.value, box['f']
        c = cls.get(name, 'unknown')
        if kind == 'ExcellonFile':
            c = 'drill'
        elif kind == 'IPCNetlist' and c != 'internal':
            c = 'ipc_netlist'
        O.equal(key + ':class', L.get(ly, 'layer_class'), c, where, 'class of the ' + key)
        O.equal(key + ':filename', L.get(ly, 'filename'), name, where, 'file name of the ' + key)
        O.equal(key + ':source', L.get(ly, 'cam_source') == f, True, where, 'source of the ' + key)
        if c == 'internal':
            O.equal(key + ':order', L.get(ly, 'order'), order[name], L.where(LY + 'InternalLayer', 'from_cam'), 'order of the ' + key)
        if c == 'drill':
            O.equal(key + ':layers', tuple(L.items(L.get(ly, 'layers'))), ('top', 'bottom'), L.where(LY + 'DrillLayer', '__init__'), 'layers drilled by the ' + key)
        if kind == 'GerberFile':
            O.equal(key + ':primitives', [p for p in L.items(L.get(ly, 'primitives'))] == [p for p in L.items(L.get(f, 'primitives'))], True, where, 'primitives of the ' + key)
            O.equal(key + ':bounds', L.get(ly, 'bounds'), L.get(f, 'bounds'), L.where(LY + 'PCBLayer', 'bounds'), 'bounds of the ' + key)


def layer(L, c, n):
    """Layer number n of a class; 'internal 3' has order 3."""
    k = c.split()
    if k[0] == 'internal':
        return L.new(LY + 'InternalLayer', 'f%d' % n, None, int(k[1]) if len(k) > 1 else 0)
    if k[0] == 'drill':
        return L.new(LY + 'DrillLayer', 'f%d' % n, None, L.list(k[1:]) if len(k) > 1 else None)
    return L.new(LY + 'PCBLayer', 'f%d' % n, k[0])


def expected(cs, from_top=True):
    """Indices in the order sort_layers must give."""
    out = []
    for c in ORDER:
        ix = [i for i, x in enumerate(cs) if x.split()[0] == c]
        if c == 'internal':
            ix.sort(key=lambda i: int((cs[i].split() + ['0'])[1]))
        out += ix
    if not from_top:
        out.reverse()
    for c in AFTER:
        out += [i for i, x in enumerate(cs) if x.split()[0] == c]
    return out


def lists(thorough):
    out = [[]] + [[c] for c in CLASSES] + [list(p) for p in itertools.product(CLASSES, repeat=2)]
    if thorough:
        out += [list(p) for p in itertools.product(CLASSES, repeat=3)]
    ks = ['internal %d' % i for i in (1, 2, 3, 12)]
    for n in (2, 3, 4):
        out += [list(p) for p in itertools.permutations(ks, n)]
    out += [list(p) for p in itertools.product(['internal 1', 'internal 2', 'top'], repeat=3)]
    full = ['drawing', 'drill', 'bottompaste', 'bottomsilk', 'internal 2', 'bottommask', 'bottom', 'internal 1', 'unknown', 'top', 'topmask', 'topsilk', 'toppaste', 'outline', 'ipc_netlist', 'drill top', 'top', 'drawing', 'outline']
    spans = ['drill top', 'drill bottom', 'drill bottom top', 'drill top 2 bottom', 'drill 2 3', 'drill bottom 2 top 3']
    out += [[c, s] for c in CLASSES for s in spans] + [['bottom', 'topmask', a, 'top', b, 'bottomsilk'] for a in spans for b in spans]
    for k in range(0, len(full)):
        r = full[k:] + full[:k]
        out += [r, r[::-1], r[::2] + r[1::2]]
    return out


def numbers(L, v):
    return [int(L.get(x, 'filename')[1:]) for x in L.items(v)]


def sorting(O, L, cases):
    where = L.where(LY + 'sort_layers')
    for cs in cases:
        for top in (None, True, False):
            key = 'sorting %s%s' % (', '.join(cs), '' if top is None else ' from the top' if top else ' from the bottom')
            L.fresh()

            def go():
                ls = L.list([layer(L, c, n) for n, c in enumerate(cs)])
                r = L.I.call(L.obj_from(LY + 'sort_layers'), [ls], {} if top is None else {'from_top': top})
                return numbers(L, r), numbers(L, ls)
            oc = L.run(go)
            if O.outcome(key, oc, where, key):
                O.equal(key, tuple(oc.value[0]), tuple(expected(cs, top is not False)), where, 'order after ' + key)
                O.equal(key + ':input', tuple(oc.value[1]), tuple(range(len(cs))), where, 'given list after ' + key)
        if not cs:
            continue
        key = 'board of %s' % ', '.join(cs)
        wb = L.where('gerber.pcb:PCB')
        L.fresh()

        def go2():
            b = L.new('gerber.pcb:PCB', L.list([layer(L, c, n) for n, c in enumerate(cs)]), 'name')
            got = {a: tuple(numbers(L, L.get(b, a))) for a in ('layers', 'top_layers', 'bottom_layers', 'drill_layers', 'copper_layers')}
            o = L.get(b, 'outline_layer')
            got['outline_layer'] = int(L.get(o, 'filename')[1:]) if o is not None else None
            got['layer_count'] = L.get(b, 'layer_count')
            got['len'] = L.call(b, '__len__')
            got['name'] = L.get(b, 'name')
            return got
        oc = L.run(go2)
        if not O.outcome(key, oc, wb, 'queries of a ' + key):
            continue
        s = expected(cs)
        k = [c.split()[0] for c in cs]

        def of(*classes):
            return [i for i in s if k[i] in classes]
        drills = {side: [i for i in of('drill') if len(cs[i].split()) == 1 or side in cs[i].split()[1:]] for side in ('top', 'bottom')}
        up, down = of('topsilk', 'topmask', 'top')[::-1], of('bottom', 'bottommask', 'bottomsilk')
        want = {'layers': tuple(s), 'drill_layers': tuple(of('drill')), 'copper_layers': tuple(of('top', 'bottom', 'internal')[::-1]),
                'top_layers': tuple(up[:1] + drills['top'] + up[1:]), 'bottom_layers': tuple(down[:1] + drills['bottom'] + down[1:]),
                'outline_layer': of('outline')[0] if of('outline') else None, 'layer_count': len(of('top', 'bottom', 'internal')), 'len': len(s), 'name': 'name'}
        for a, v in want.items():
            O.equal('%s:%s' % (key, a), oc.value[a], v, L.where('gerber.pcb:PCB', '__len__' if a == 'len' else '__init__' if a in ('layers', 'name') else a), '%s of a %s' % (a, key))


def orders(O, L):
    """Internal layers compare as their numbers do."""
    for a, b in itertools.product((0, 1, 2, 10), repeat=2):
        for op, want in (('Eq', a == b), ('NotEq', a != b), ('Lt', a < b), ('LtE', a <= b), ('Gt', a > b), ('GtE', a >= b)):
            L.fresh()
            oc = L.run(lambda: L.I.bm.compare(op, L.new(LY + 'InternalLayer', 'a', None, a), L.new(LY + 'InternalLayer', 'b', None, b)))
            key = 'internal layers %d %s %d' % (a, op, b)
            if O.outcome(key, oc, L.where(LY + 'InternalLayer'), 'comparing ' + key):
                O.equal(key, oc.value, want, L.where(LY + 'InternalLayer'), key)


def bounds(O, L):
    where = L.where('gerber.pcb:PCB', 'board_bounds')
    for cs in (['outline', 'top'], ['top', 'outline'], ['bottom', 'top'], ['top', 'topsilk', 'top'], ['outline', 'outline'], ['bottom']):
        key = 'bounds of a board of %s' % ', '.join(cs)
        L.fresh()

        def go():
            ls = []
            for n, c in enumerate(cs):
                f = L.new('recorder:Board', ((n, n + 1), (n + 2, n + 3)), L.list([]))
                ls.append(L.new(LY + 'PCBLayer', 'f%d' % n, c, f))
            return L.get(L.new('gerber.pcb:PCB', L.list(ls)), 'board_bounds')
        oc = L.run(go)
        n = cs.index('outline') if 'outline' in cs else cs.index('top') if 'top' in cs else None
        if O.outcome(key, oc, where, key):
            O.equal(key, oc.value, ((n, n + 1), (n + 2, n + 3)) if n is not None else None, where, key)


GBR = '%FSLAX24Y24*%\n%MOIN*%\n%ADD10C,0.1*%\nD10*\nX0Y0D03*\nM02*\n'
DRL = 'M48\nINCH,TZ\nT1C0.1\n%\nT1\nX010000Y010000\nM30\n'
IPC = 'C  IPC\nP  JOB   x\nP  UNITS CUST 0\n999\n'
JUNK = 'no layer here\n'


def boards(O):
    """Boards loaded from directories."""
    dirs = [
        ({'b.gtl': GBR, 'b.gbl': GBR, 'b.drl': DRL}, 'b', ['top', 'bottom', 'drill']),
        ({'b.gtl': GBR, '.b.gbl': GBR, 'Thumbs.db': JUNK, '.DS_Store': JUNK, 'b.gko': GBR}, 'b', ['outline', 'top']),
        ({'b.gtl': GBR, 'c.gbl': GBR}, 'dir7', ['top', 'bottom']),
        ({'b.gtl': GBR, 'readme.txt': JUNK, 'b.g2': GBR, 'b.g1': GBR, 'x.ipc': IPC}, 'dir7', ['top', 'internal', 'internal']),
        ({}, 'dir7', []),
        ({'b.topmask.gbr': GBR, 'b.drill.drl': DRL, 'b.gtl': GBR}, 'b', ['topmask', 'top', 'drill']),
        ({'b.x.gtl': GBR, 'b.x.gbl': GBR}, 'b.x', ['top', 'bottom']),
        ({'b.x.gtl': GBR, 'b.x.drl': DRL}, 'b.x', ['top', 'drill']),
        ({'b.v2.drl': DRL}, 'b.v2', ['drill']),
        ({'readme.txt': JUNK}, 'dir7', []),
        ({'gone.gtl': None, 'b.gtl': GBR, 'gone.gbl': None, 'b.gbl': GBR}, 'b', ['top', 'bottom']),
        ({'b.gts.gbr': GBR, 'b.topmask.gbr': GBR, 'b.drill.drl': DRL}, 'dir7', ['topmask', 'drill']),
    ]
    for n, (files, name, classes) in enumerate(dirs):
        for given, verbose, turn in [(None, False, k) for k in range(len(files) or 1)] + [('mine', False, 0), (None, True, 0), ('mine', True, 1)]:
            if True:
                key = 'directory %d%s%s%s' % (n, ' named' if given else '', ' verbose' if verbose else '', ' from %d' % turn if turn else '')
                L = Lab(['gerber.pcb', 'gerber.layers'])
                where = L.where('gerber.pcb:PCB', 'from_directory')
                L.fresh()
                L.I.files = {'/boards/dir7/' + f: t for f, t in files.items()}
                L.I.files = {f: t for f, t in L.I.files.items() if t is not None}
                L.I.dirs = {'/boards/dir7': list(files)[turn:] + list(files)[:turn]}
                oc = L.run(lambda: L.I.call(L.get(L.obj_from('gerber.pcb:PCB'), 'from_directory'), ['/boards/dir7'], dict({'board_name': given} if given else {}, **({'verbose': True} if verbose else {}))))
                oc.maybe = [m for m in oc.maybe or [] if m[0] != 'IOError']
                if not O.outcome(key, oc, where, 'loading ' + key):
                    continue
                b = oc.value
                got = [(L.get(x, 'layer_class'), L.get(x, 'filename')) for x in L.items(L.get(b, 'layers'))]
                O.equal(key + ':classes', tuple(c for c, _ in got), tuple(classes), where, 'classes of the layers of ' + key)
                O.equal(key + ':once', len(set(f for _, f in got)), len(got), where, 'files loaded once from ' + key)
                if given:
                    O.equal(key + ':name', L.get(b, 'name'), given, where, 'name given to ' + key)
                else:
                    O.equal(key + ':name', L.get(b, 'name'), name, where, 'name of ' + key)
                O.note(L)
    L = Lab(['gerber.pcb'])
    L.fresh()
    L.I.dirs = {'/boards/dir7': []}
    L.I.files = {'/boards/f': GBR}
    oc = L.run(lambda: L.I.call(L.get(L.obj_from('gerber.pcb:PCB'), 'from_directory'), ['/boards/f'], {}))
    where = L.where('gerber.pcb:PCB', 'from_directory')
    if oc.kind == 'undecided':
        O.undecided('not a directory', oc.why)
    else:
        O.equal('not a directory', (oc.kind, oc.value if oc.kind == 'raise' else None), ('raise', 'TypeError'), where, 'loading something that is no directory')


def run(O, thorough):
    from .picture import project
    L = Lab(['gerber.layers', 'gerber.pcb', 'gerber.rs274x', 'gerber.excellon', 'gerber.ipc356', 'recorder'], project=project())
    cs = lists(thorough)
    jobs = [('sort', cs[i::8]) for i in range(8)] + [('guess',), ('made',), ('rest',), ('boards',)]

    def work(job):
        if job[0] == 'sort':
            sorting(O, L, job[1])
        elif job[0] == 'guess':
            guess(O, L)
        elif job[0] == 'made':
            made(O, L)
        elif job[0] == 'boards':
            boards(O)
        else:
            orders(O, L)
            bounds(O, L)
        O.note(L)
        L.I.call_log.clear()
    parallel(O, jobs, work)
