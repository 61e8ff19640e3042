"""C24 themes give settings for layers."""
import itertools

from sa.lab import *
from .strs import *

RULE = ('Abstract interpretation of theme.py: the settings every theme gives for every layer class, by get and by key, with and without fallback, over repeated and mixed '
        'requests, compared with the settings the theme was made with or the defaults; mirrored and inverted layers of the board view themes; color ranges.')
ASSUMPTIONS = ['mirrored classes are those seen from below']
T = 'gerber.render.theme:'
CLASSES = ('background', 'topsilk', 'bottomsilk', 'topmask', 'bottommask', 'top', 'bottom', 'drill', 'ipc_netlist')
OTHER = ('unknown', 'outline', 'toppaste', 'bottompaste', 'drawing', 'x', '')


def val(L, s):
    if s is None or not isinstance(s, Ref):
        return s
    c = L.get(s, 'color')
    return (tuple(c if isinstance(c, tuple) else L.items(c)), L.get(s, 'alpha'), L.get(s, 'invert'), L.get(s, 'mirror'))


def settings(L, n):
    return L.new('gerber.render.render:RenderSettings', tuple(sym('%s%d' % (c, n), '0+') for c in 'rgb'), sym('a%d' % n, '0+'), n % 2 == 0, n % 3 == 0)


def run(O, thorough):
    L = Lab(['gerber.render.theme', 'gerber.render.render'])
    where = L.where(T + 'Theme', '__init__')
    wget = L.where(T + 'Theme', 'get')
    # settings given are the ones used, the others are the defaults
    L.fresh()
    base = L.run(lambda: dict((c, val(L, L.call(L.new(T + 'Theme'), 'get', c))) for c in CLASSES))
    if not O.outcome('default theme', base, where, 'making the default theme'):
        return
    subsets = [()] + [(c,) for c in CLASSES] + list(itertools.combinations(CLASSES, 2)) + [CLASSES]
    for sub in subsets:
        key = 'theme with %s' % (', '.join(sub) or 'nothing')
        L.fresh()
        box = {}

        def go():
            given = dict((c, settings(L, CLASSES.index(c))) for c in sub)
            box['given'] = dict((c, val(L, s)) for c, s in given.items())
            t = L.new(T + 'Theme', 'mine', **given)
            out = {}
            for c in CLASSES:
                out[c] = (val(L, L.call(t, 'get', c)), val(L, L.I.bm.getitem(t, c)), val(L, L.call(t, 'get', c, settings(L, 99))))
            for c in OTHER:
                out[c] = (val(L, L.call(t, 'get', c)), val(L, L.call(t, 'get', c, settings(L, 99))))
            return out, L.get(t, 'name')
        oc = L.run(go)
        if not O.outcome(key, oc, where, 'asking a ' + key):
            continue
        out, name = oc.value
        O.equal(key + ':name', name, 'mine', where, 'name of a ' + key)
        for c in CLASSES:
            w = box['given'].get(c, base.value[c])
            for n, g in enumerate(out[c]):
                O.equal('%s:%s:%d' % (key, c, n), g, w, wget, 'settings of %s in a %s' % (c, key))
        for c in OTHER:
            O.equal('%s:%s' % (key, c), out[c], (None, val_of(99)), wget, 'settings of %s in a %s' % (c, key))
    # internal layers take the settings in turn, for as many layers as there are
    wi = L.where(T + 'Theme', 'internal')
    for n in (None, 1, 2, 5):
        for ways in (('get',), ('key',), ('get', 'key'), ('get', 'other')):
            key = 'internal layers of a theme with %s settings by %s' % (n, ' and '.join(ways))
            L.fresh()

            def go():
                if n is None:
                    t = L.new(T + 'Theme')
                    cols = [(tuple(x if isinstance(x, tuple) else L.items(x)), 1.0, False, False) for x in L.items(L.obj_from(T + 'SPECTRUM'))]
                else:
                    t = L.new(T + 'Theme', internal=L.list([settings(L, i) for i in range(n)]))
                    cols = [val_of(i) for i in range(n)]
                got = []
                for i in range(3 * len(cols) + 2):
                    w = ways[i % len(ways)]
                    if w == 'other':
                        L.call(t, 'get', 'top')
                        w = 'get'
                    got.append(val(L, L.call(t, 'get', 'internal') if w == 'get' else L.I.bm.getitem(t, 'internal')))
                return got, cols
            oc = L.run(go)
            if O.outcome(key, oc, wi, 'asking for ' + key):
                for i, g in enumerate(oc.value[0]):
                    O.equal('%s:%d' % (key, i), g, oc.value[1][i % len(oc.value[1])], wi, 'settings number %d of %s' % (i, key))
    # themes of the package
    L.fresh()
    for name in ('default', 'OSH Park', 'Blue', 'Transparent Copper', 'Transparent Multilayer'):
        oc = L.run(lambda: L.I.bm.getitem(L.obj_from(T + 'THEMES'), name))
        if not O.outcome('theme ' + name, oc, where, 'theme ' + name):
            continue
        for c in CLASSES + ('internal',) * 9:
            oc2 = L.run(lambda: val(L, L.call(oc.value, 'get', c)))
            key = 'theme %s:%s' % (name, c)
            if not O.outcome(key, oc2, where, 'asking theme %s for %s' % (name, c)):
                continue
            s = oc2.value
            if s is None:
                O.fail(key, where, 'theme %s has no settings for %s' % (name, c))
                continue
            ok = len(s[0]) == 3 and all(is_num(x) and 0 <= x <= 1 for x in s[0] + (s[1],))
            (O.ok(key + ':range') if ok else O.fail(key + ':range', where, 'color %s of %s in theme %s is out of range' % (show(s), c, name)))
            if not name.startswith('Transparent'):
                O.equal(key + ':mirror', s[3], c.startswith('bottom'), where, 'mirroring of %s in theme %s' % (c, name))
                O.equal(key + ':invert', s[2], c.endswith('mask'), where, 'inversion of %s in theme %s' % (c, name))
    O.note(L)


def val_of(n):
    return (tuple(sym('%s%d' % (c, n), '0+') for c in 'rgb'), sym('a%d' % n, '0+'), n % 2 == 0, n % 3 == 0)
