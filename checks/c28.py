"""C28 the command line renders the files it is given."""
import os

from sa.lab import *
from sa.project import Project
from .picture import MODELS
from .c22 import GBR, DRL, IPC, JUNK

RULE = ('Abstract interpretation of gerber/__main__.py over a table of command lines and directories, with the standard argument parser as a model and a renderer whose '
        'render_layers, render_layer and dump only record: images asked for, layers of each in drawing order, theme, size limits, names.')
ASSUMPTIONS = ['the standard argparse reads options, flags and positionals as the model does', 'what the renderer does with its layers is decided by C16 and C17']
MAIN = 'gerber.__main__:main'
BACK = 'gerber.render.cairo_backend:GerberCairoContext.'

NONE = '%FSLAX25Y25*%\n%MOIN*%\nM02*\n'      # nothing drawn: an inverted layer is full all the same
BOARDS = {
    'two': {'b.gtl': GBR, 'b.gbl': GBR, 'b.gko': GBR, 'b.drl': DRL},
    'full': {'b.gbo': GBR, 'b.drl': DRL, 'b.gto': GBR, 'b.gtl': GBR, 'b.gko': GBR, 'b.gts': GBR, 'b.gbs': GBR, 'b.gbl': GBR, 'b.gtp': GBR, 'b.gbp': GBR, 'readme.txt': JUNK},
    'inner': {'b.gbl': GBR, 'b.gtl': GBR, 'b.g2': GBR, 'b.g1': GBR, 'b.gko': GBR, 'b.ipc': IPC},
    'bare': {'b.gtl': GBR, 'b.gbl': GBR, 'b.gto': GBR, 'b.gbs': GBR},
    'holes': {'b.drl': DRL, 'b.gko': GBR, 'b.gts': GBR, 'b.gtl': GBR},
    'open': {'b.gtl': GBR, 'b.gbl': GBR, 'b.drl': DRL, 'b.gts': GBR},
    'plain': {'b.gbl': GBR, 'b.gbs': GBR},
    'v1.2': {'b.gtl': GBR, 'b.gbl': NONE, 'b.gko': GBR, 'b.drl': DRL, 'b.gts': NONE},
    'top.gtl': {'b.gtl': GBR, 'b.gbl': GBR},
}
# bottom to top of each picture; (with an outline)
WANT = {
    'two': (['gko', 'gtl', 'drl'], ['gko', 'gbl', 'drl'], ['gko', 'gbl', 'gtl', 'drl']),
    'full': (['gko', 'gtl', 'drl', 'gts', 'gto'], ['gko', 'gbl', 'drl', 'gbs', 'gbo'], ['gko', 'gbl', 'gtl', 'drl']),
    'inner': (['gko', 'gtl'], ['gko', 'gbl'], ['gko', 'gbl', 'g2', 'g1', 'gtl']),
    'bare': (['gtl', 'gto'], ['gbl', 'gbs'], ['gbl', 'gtl']),
    'holes': (['gko', 'gtl', 'drl', 'gts'], ['gko', 'drl'], ['gko', 'gtl', 'drl']),
    'open': (['gtl', 'drl', 'gts'], ['gbl', 'drl'], ['gbl', 'gtl']),
    'plain': ([], ['gbl', 'gbs'], ['gbl']),
    'v1.2': (['gko', 'gtl', 'drl', 'gts'], ['gko', 'gbl', 'drl'], ['gko', 'gbl', 'gtl', 'drl']),
    'top.gtl': (['gtl'], ['gbl'], ['gbl', 'gtl']),
}
OPTIONS = [
    ([], {}),
    (['-o', 'pic'], dict(out='pic')),
    (['--outfile', 'dir/a.b'], dict(out='dir/a.b')),
    (['--width', '300'], dict(w=300)),
    (['--height', '200', '--backend', 'cairo'], dict(h=200)),
    (['--width', '11', '--height', '7', '-o', 'x', '-b', 'cairo'], dict(w=11, h=7, out='x')),
    (['-v'], {}),
    (['--verbose', '--width', '5'], dict(w=5)),
]


def lab():
    p = Project(extra={n: os.path.join(MODELS, n + '.py') for n in ('cairo', 'recorder', 'argparse')})
    log = []
    NAMES = {'render_layers': (('layers', None), ('filename', None), ('theme', None), ('verbose', False), ('max_width', 800), ('max_height', 600)),
             'render_layer': (('layer', None), ('filename', None), ('settings', None), ('bgsettings', None), ('verbose', False), ('bounds', None)),
             'dump': (('filename', None), ('verbose', False))}

    def stub(name):
        def f(I, args, kw):
            b = dict(NAMES[name])
            names = signature(L, name) or [n for n, _ in NAMES[name]]
            for n, v in zip(names, args[1:]):
                b[n] = v
            b.update(kw)
            log.append((name, args[0], dict((k, tuple(I.bm.iterate(v)) if k == 'layers' else v) for k, v in b.items())))
            return None
        return f
    L = Lab(['gerber.__main__', 'gerber.render', 'gerber.render.theme', 'gerber.layers', 'argparse'], stubs={BACK + n: stub(n) for n in NAMES}, project=p)
    L.log = log
    return L


def signature(L, name):
    """Names of the parameters of a method of the renderer, as the source has them."""
    try:
        f = L.obj_from('gerber.render.cairo_backend:GerberCairoContext.' + name)
        f = getattr(f, 'func', f)
        return [x.arg for x in f.node.args.args][1:]
    except Exception:
        return None


def command(O, L, key, argv, files, dirs):
    L.fresh()
    del L.log[:]
    L.I.files = dict(files)
    L.I.dirs = dict(dirs)
    argv = ['gerber-render'] + argv
    a = L.I.st.get(L.obj_from('argparse:ARGV'))
    L.I.st.w(L.obj_from('argparse:ARGV')).items = argv[1:]
    oc = L.run(lambda: L.I.call(L.obj_from(MAIN), [], {}))
    oc.maybe = [m for m in oc.maybe or [] if m[0] != 'IOError']
    return oc


def path(L, layer):
    return L.get(layer, 'filename')


def look(L, s):
    return tuple(L.get(s, a) for a in ('color', 'alpha', 'invert', 'mirror')) if s is not None else None


def boards(O, L, names):
    where = L.where(MAIN)
    themes = [L.I.st.get(L.obj_from('gerber.render.theme:THEMES')).d]
    themes = [v[0] for v in themes[0].values()]
    for board in names:
        for opts, want in OPTIONS + [(['-t', t], dict(theme=t)) for t in themes] + [(['--theme', themes[-1], '-o', 'y'], dict(theme=themes[-1], out='y'))]:
            for last in (False, True):
                d = '/boards/' + board
                argv = opts + [d] if last else [d] + opts
                key = 'command %s' % ' '.join(argv)
                bd = BOARDS[board]
                oc = command(O, L, key, argv, {d + '/' + f: t for f, t in bd.items()}, {d: list(bd)})
                if not O.outcome(key, oc, where, key):
                    continue
                out = want.get('out', 'out')
                images = {'%s.%s.png' % (out, s): n for n, s in enumerate(('top', 'bottom', 'copper')) if WANT[board][n]}
                calls = [c for c in L.log if c[0] == 'render_layers' and c[2]['layers']]      # no layers, no image (C17)
                O.equal(key + ':images', tuple(sorted(c[2]['filename'] for c in calls if isinstance(c[2]['filename'], str))), tuple(sorted(images)), where, 'images written by ' + key)
                O.equal(key + ':other', tuple(c[0] for c in L.log if c[0] != 'render_layers'), (), where, 'other drawing by ' + key)
                for _, me, b in calls:
                    fn = b['filename']
                    if fn not in images:
                        continue
                    n = images[fn]
                    ls = WANT[board][n]
                    got = tuple(os.path.basename(path(L, x)) for x in b['layers'])
                    alts = [tuple('b.' + e for e in ls)]
                    if n == 2 and 'b.gko' not in bd:       # with or without the holes where there is no outline
                        alts.append(alts[0] + tuple(f for f in bd if f.endswith('drl')))
                    O.equal('%s:%s:layers' % (key, fn), got, alts, where, 'layers drawn in %s by %s' % (fn, key))
                    t = 'Transparent Multilayer' if n == 2 else want.get('theme', 'default')
                    tr = L.I.bm.getitem(L.obj_from('gerber.render.theme:THEMES'), t)
                    O.equal('%s:%s:theme' % (key, fn), [k for k in themes if L.I.bm.getitem(L.obj_from('gerber.render.theme:THEMES'), k) == b['theme']][:1] == [t] or b['theme'] == tr, True, where,
                            'theme %r of %s by %s' % (t, fn, key))
                    O.equal('%s:%s:width' % (key, fn), b['max_width'], want.get('w', 1920), where, 'width limit of %s by %s' % (fn, key))
                    O.equal('%s:%s:height' % (key, fn), b['max_height'], want.get('h', 1080), where, 'height limit of %s by %s' % (fn, key))
        O.note(L)


FILES = [
    ['/f/b.gtl'], ['/f/b.gbl', '/f/b.gtl'], ['/f/b.gtl', '/f/b.drl', '/f/b.gts'], ['/f/b.gbs', '/f/b.gbo', '/f/b.gto', '/f/b.gko'],
    ['/f/b.gbl', '/f/b.gbl'], ['/f/what.xyz', '/f/b.gtl'], ['/f/b.drl', '/f/b.g1', '/f/b.gtl', '/f/b.gtp'], ['/f/b.gbp'],
    ['/f/b.gtl', '/f/none.gts'], ['/f/b.gtl', '/f/none.gtl', '/f/b.gts'],
]


def singles(O, L, names):
    where = L.where(MAIN)
    themes = [v[0] for v in L.I.st.get(L.obj_from('gerber.render.theme:THEMES')).d.values()]
    for fs in names:
        for opts, want in OPTIONS + [(['-t', t], dict(theme=t)) for t in themes]:
            key = 'command %s' % ' '.join(fs + opts)
            text = {f: DRL if f.endswith('drl') else NONE if 'none' in f else GBR for f in fs}
            # what the theme gives for the classes, asked for in this order
            L.fresh()
            L.I.files = dict(text)
            oc = L.run(lambda: [look(L, L.call(L.I.bm.getitem(L.obj_from('gerber.render.theme:THEMES'), want.get('theme', 'default')), 'get',
                                               L.get(L.I.call(L.obj_from('gerber.layers:load_layer'), [f], {}), 'layer_class'))) for f in fs])
            if oc.kind != 'ok':
                O.undecided(key, 'settings of the theme: %s' % oc.why)
                continue
            ref = oc.value
            plain = look(L, L.new('gerber.render.render:RenderSettings'))
            oc = command(O, L, key, fs + opts, text, {})
            if not O.outcome(key, oc, where, key):
                continue
            seq = [c for c in L.log if c[0] != 'render_layers']
            O.equal(key + ':calls', tuple(c[0] for c in L.log), ('render_layer',) * len(fs) + ('dump',), where, 'drawing done by ' + key)
            O.equal(key + ':one', len(set(c[1] for c in L.log)), 1, where, 'pictures drawn on by ' + key)
            got = [c for c in L.log if c[0] == 'render_layer']
            if len(got) == len(fs):
                for n, (c, f, s) in enumerate(zip(got, fs, ref)):
                    O.equal('%s:%d:file' % (key, n), path(L, c[2]['layer']), f, where, 'layer %d drawn by %s' % (n + 1, key))
                    g = look(L, c[2]['settings']) if c[2]['settings'] is not None else plain
                    O.equal('%s:%d:settings' % (key, n), g, s if s is not None else plain, where, 'settings of layer %d drawn by %s' % (n + 1, key))
                    O.equal('%s:%d:name' % (key, n), c[2]['filename'], None, where, 'image written for layer %d alone by %s' % (n + 1, key))
            for c in L.log:
                if c[0] == 'dump':
                    O.equal(key + ':image', c[2]['filename'], want.get('out', 'out') + '.png', where, 'image written by ' + key)
        O.note(L)


def refused(O, L):
    where = L.where(MAIN)
    for argv in ([], ['-b', 'nothing', '/f/b.gtl'], ['-t', 'nothing', '/f/b.gtl'], ['--width', 'wide', '/f/b.gtl'], ['--what', '/f/b.gtl']):
        key = 'command %s' % ' '.join(argv)
        oc = command(O, L, key, argv, {'/f/b.gtl': GBR}, {})
        if oc.kind == 'undecided':
            O.undecided(key, oc.why)
            continue
        O.equal(key, (oc.kind, oc.value if oc.kind == 'raise' and oc.value != 'ValueError' else None, tuple(L.log)), ('raise', 'SystemExit', ()) if 'wide' not in argv else ('raise', None, ()), where, key + ' is refused')


def run(O, thorough):
    L = lab()
    jobs = [('board', [b]) for b in BOARDS] + [('files', [f]) for f in FILES] + [('refused',)]

    def work(job):
        if job[0] == 'board':
            boards(O, L, job[1])
        elif job[0] == 'files':
            singles(O, L, job[1])
        else:
            refused(O, L)
        O.note(L)
        L.I.call_log.clear()
    from sa.par import parallel
    parallel(O, jobs, work)
