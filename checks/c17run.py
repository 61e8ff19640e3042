"""Whole rendering runs: macros, test points, layers, colors, background and output."""
from . import c17
from .c17 import *

CAM = 'gerber.cam:CamFile'
INCH = 0.015


def rgba(rgb, alpha):
    return ('rgba',) + tuple(rgb) + (alpha,)


def opens(oc):
    """Files can be opened for writing."""
    oc.maybe = [m for m in oc.maybe or [] if m[0] != 'IOError']
    return oc


def macros(O, L):
    c, c2 = (X, Y), (X + R, Y + D)

    def circle(p, d, pol='dark'):
        return lambda L: L.new(PR + 'Circle', p, d, level_polarity=pol), ('over' if pol == 'dark' else 'clear', disk(p, d * .5))

    def rect(p, pol='dark'):
        return lambda L: L.new(PR + 'Rectangle', p, A, B, level_polarity=pol), ('over' if pol == 'dark' else 'clear', box(p, A, B))

    def outline(pol='dark'):
        ps = [c, (X + A, Y), (X, Y + B)]
        return (lambda L: L.new(PR + 'Outline', L.list([L.new(PR + 'Line', a, b, L.new(PR + 'Circle', (0, 0), 0)) for a, b in zip(ps, ps[1:] + ps[:1])]), level_polarity=pol),
                ('over' if pol == 'dark' else 'clear', area(*ps)))
    groups = [('one circle', [circle(c, D)]), ('annulus', [circle(c, D + R), circle(c, R, 'clear')]), ('hole first', [circle(c, R, 'clear'), circle(c2, D)]),
              ('three', [rect(c), circle(c2, D, 'clear'), circle(c, R)]), ('outlines', [outline(), rect(c2, 'clear'), outline('clear'), circle(c, D)]),
              ('two dark', [rect(c), circle(c2, D)])]
    for (name, parts), pol, inv, mir in itertools.product(groups, ('dark', 'clear'), (False, True), (False, True)):
        key = 'macro %s %s%s%s' % (name, pol, ' inverted' if inv else '', ' mirrored' if mir else '')
        where = L.where(CTX, '_render_amgroup')
        L.fresh()

        def go():
            ctx = setup(L, inv, mir)
            layer = L.get(ctx, 'active_layer')
            L.call(ctx, 'render', L.new(PR + 'Rectangle', (X2, Y2), A, B))
            g = L.new(PR + 'AMGroup', L.list([L.new('recorder:Shape', m(L)) for m, _ in parts]), level_polarity=pol)
            L.call(ctx, 'render', g)
            L.call(ctx, 'render', L.new(PR + 'Circle', (X2, Y), R))
            clipped = []
            return layer_ops(L, layer, clipped), clipped
        oc = opens(L.run(go))
        if not O.outcome(key, oc, where, 'rendering a macro: ' + key):
            continue
        ops, clipped = oc.value
        want = [('dark', [('over', box((X2, Y2), A, B))]), (pol, None), ('dark', [('over', disk((X2, Y), R * .5))])]
        exp = []
        for p, board in want:
            if board is None:
                m = grouped('over', [(o, device(s, mir)) for o, s in (w for _, w in parts)])
                exp.append((p, [('over', s[1]) for _, s in parts if s[0] == 'over'], m))
            else:
                exp.append((p, board, [(o, device(s, mir)) for o, s in board]))
        # a macro without clear parts may as well be drawn part by part
        if len(ops) > len(exp) + (1 if inv else 0):
            if all(s[0] == 'over' for _, s in parts):
                exp[1:2] = [(pol, [('over', s[1])], [('over', device(s[1], mir))]) for _, s in parts]
        check_ops(O, L, key, where, ops, exp, inv, mir, key)
        for n, (clip, m) in enumerate(clipped):
            xs, ys = hull([s for o, s in m if o == 'over'])
            r = covers(clip, extremes(xs), extremes(ys))
            k = '%s:part %d:clip' % (key, n)
            if r is True:
                O.ok(k)
            elif r is None:
                O.undecided(k, 'clip region not decided')
            else:
                O.fail(k, where, 'the clip region of a part of %s cuts it off' % key)


def test_points(O, L):
    for inv, mir in itertools.product((False, True), repeat=2):
        key = 'test point%s%s' % (' inverted' if inv else '', ' mirrored' if mir else '')
        where = L.where(CTX, '_render_test_record')
        L.fresh()

        def go():
            ctx = setup(L, inv, mir)
            layer = L.get(ctx, 'active_layer')
            L.call(ctx, 'render', L.new(PR + 'Circle', (X2, Y2), D))
            L.call(ctx, 'render', L.new(PR + 'TestRecord', (X, Y), 'NET/1', 'both'))
            L.call(ctx, 'render', L.new(PR + 'Circle', (X2, Y), D))
            return layer_ops(L, layer)
        oc = opens(L.run(go))
        if not O.outcome(key, oc, where, 'rendering a ' + key):
            continue
        texts = [o for o in oc.value if o[3][0] == 'text']
        rest = [o for o in oc.value if o[3][0] != 'text']
        shapes = [disk((X2, Y2), D * .5), disk((X, Y), INCH / 2), disk((X2, Y), D * .5)]
        check_ops(O, L, key, where, rest, [('dark', [('over', s)], [('over', device(s, mir))]) for s in shapes], inv, mir, key)
        if len(texts) != 1:
            O.fail(key + ':name', where, '%d texts are drawn for a test point' % len(texts))
            continue
        op, source, clips, (_, text, path, lin) = texts[0]
        O.equal(key + ':name', text, 'NET/1', where, 'text of a test point')
        O.equal(key + ':name operator', op, 'clear' if inv else 'over', where, 'operator of the text')
        at = [e[1] for e in path][-1:] or [None]
        want = device(area((X + INCH, Y + INCH)), mir)[1][0][1]
        O.equal(key + ':name place', at[0], want, where, 'place of the text')
        O.equal(key + ':name clip', len(clips), 0, where, 'clip regions of the text')


SHAPES = [('circle', lambda L: L.new(PR + 'Circle', (X, Y), D), 'dark', disk((X, Y), D * .5)),
          ('clear rectangle', lambda L: L.new(PR + 'Rectangle', (X2, Y2), A, B, level_polarity='clear'), 'clear', box((X2, Y2), A, B)),
          ('line', lambda L: L.new(PR + 'Line', (X, Y), (X2, Y2), L.new(PR + 'Circle', (0, 0), D), level_polarity='dark'), 'dark', ('stroke', (('p', (X, Y)), ('p', (X2, Y2))), D, 'round', False)),
          ('drill', lambda L: L.new(PR + 'Drill', (X2, Y), R), 'dark', disk((X2, Y), R * .5))]
BOUNDS = ((OX, OX + W), (OY, OY + H))


def check_output(O, L, key, where, surface, want, inside=None):
    """Surface against [('background', rgb, alpha) | (shapes, rgb, alpha, invert, mirror)]."""
    ops = ops_of(L, surface)
    if len(ops) != len(want):
        O.fail(key + ':count', where, '%d things are painted on the image, expected %d (background and layers)' % (len(ops), len(want)))
        return
    for n, ((op, source, clips, kind, *rest), w) in enumerate(zip(ops, want)):
        k = '%s:%d' % (key, n)
        O.equal(k + ':operator', op, 'over', where, 'operator on the image')
        O.equal(k + ':clip', len(clips), 0, where, 'clip regions on the image')
        if w[0] == 'background':
            O.equal(k + ':background', (kind, source), ('paint', rgba(w[1], w[2])), where, 'background')
            if kind == 'paint':
                O.equal(k + ':background opacity', rest[0], 1.0, where, 'opacity of the background')
            continue
        shapes, rgb, alpha, inv, mir = w
        if kind != 'mask':
            O.fail(k, where, 'layer %d is put on the image by %s' % (n, kind))
            continue
        O.equal(k + ':color', source, rgba(rgb, alpha), where, 'color of layer %d' % n)
        O.equal(k + ':place', (rest[1], rest[2]), ((1.0, 0.0, 0.0, 1.0), (0, 0)), where, 'place of layer %d on the image' % n)
        O.equal(k + ':size', (L.get(rest[0], 'width'), L.get(rest[0], 'height')), (L.get(surface, 'width'), L.get(surface, 'height')), where, 'size of layer %d' % n)
        if shapes is not None:
            check_ops(O, L, k + ':layer', where, layer_ops(L, rest[0]), [(s[2], [('over', s[3])], [('over', device(s[3], mir))]) for s in shapes], inv, mir, key)


def settings_of(L, n, inv=False, mir=False, back=False):
    rgb = tuple(sym('%s%d%s' % (c, n, 'b' if back else ''), '0+') for c in 'rgb')
    al = sym('alpha%d%s' % (n, 'b' if back else ''), '0+')
    return L.new('gerber.render.render:RenderSettings', rgb, al, inv, mir), rgb, al


def layer_of(L, shapes, cls='top', bounds=BOUNDS):
    b = L.new('recorder:Board', bounds, L.list([s[1](L) for s in shapes]))
    return L.new('gerber.layers:PCBLayer', 'a.gbr', cls, b)


def render_file(O, L):
    where = L.where(CAM, 'render')
    for inv, two, name in itertools.product((False, True), (False, True), (None, 'a.png')):
        key = 'file%s%s%s' % (' inverted' if inv else '', ', then another' if two else '', ', saved' if name else '')
        L.fresh()
        col = tuple(sym(c, '0+') for c in ('red', 'green', 'blue'))
        bg = tuple(sym(c, '0+') for c in ('bred', 'bgreen', 'bblue'))
        al = sym('alpha', '0+')

        def go():
            ctx = L.new(CTX, S)
            for n, v in (('_color', col), ('_background_color', bg), ('_alpha', al)):
                L.set(ctx, n, v)
            L.call(L.new('recorder:Board', BOUNDS, L.list([s[1](L) for s in SHAPES])), 'render', ctx, inv, name)
            if two:
                L.call(L.new('recorder:Board', ((OX - A, OX + B), (OY, OY + D)), L.list([s[1](L) for s in SHAPES[:2]])), 'render', ctx, False)
            return L.get(ctx, 'surface'), ctx
        oc = opens(L.run(go))
        if not O.outcome(key, oc, where, 'rendering a ' + key):
            continue
        surface, ctx = oc.value
        O.equal(key + ':size', (L.get(surface, 'width'), L.get(surface, 'height')), (W * S, H * S), where, 'size of the image')
        want = [('background', bg, 1.0), (SHAPES, col, al, inv, False)] + ([(SHAPES[:2], col, al, False, False)] if two else [])
        check_output(O, L, key, where, surface, want)
        O.equal(key + ':saved', tuple(L.items(L.get(surface, 'written'))), (name,) if name else (), where, 'files written')


def render_layer(O, L):
    where = L.where(CTX, 'render_layer')
    variants = [(i, m) for i in (False, True) for m in (False, True)]
    runs = [[v] for v in variants] + [[a, b] for a in variants for b in variants] + [[(True, False), (False, False), (False, True)]]
    for given, seq in itertools.product((False, True), runs):
        key = 'layers %s%s' % (' then '.join(('inverted ' if i else '') + ('mirrored' if m else 'plain') for i, m in seq), ' in given bounds' if given else '')
        L.fresh()

        def go():
            ctx = L.new(CTX, S)
            bg, brgb, bal = settings_of(L, 0, back=True)
            want = [('background', brgb, bal)]
            for n, (i, m) in enumerate(seq):
                s, rgb, al = settings_of(L, n, i, m)
                shapes = SHAPES[n:] + SHAPES[:n]
                b = ((OX, OX + W), (OY, OY + H)) if n == 0 and not given else ((OX - A, OX + B), (OY + n, OY + D))
                kw = {'settings': s, 'bgsettings': bg}
                if given:
                    kw['bounds'] = BOUNDS
                L.call(ctx, 'render_layer', layer_of(L, shapes, bounds=b), **kw)
                want.append((shapes, rgb, al, i, m))
            return L.get(ctx, 'surface'), want
        oc = opens(L.run(go))
        if not O.outcome(key, oc, where, 'rendering ' + key):
            continue
        surface, want = oc.value
        O.equal(key + ':size', (L.get(surface, 'width'), L.get(surface, 'height')), (W * S, H * S), where, 'size of the image')
        check_output(O, L, key, where, surface, want)
    # settings left to the default theme
    for cls in ('top', 'bottom', 'topsilk', 'bottomsilk', 'topmask', 'bottommask', 'drill', 'outline', 'unknown', 'ipc_netlist'):
        key = 'default settings of %s' % cls
        L.fresh()

        def go():
            ctx = L.new(CTX, S)
            L.call(ctx, 'render_layer', layer_of(L, SHAPES, cls))
            th = theme_of(L, 'default')
            return L.get(ctx, 'surface'), [('background',) + colors(L, L.call(th, 'get', 'background'))[:2], (SHAPES,) + setting(L, th, cls)]
        oc = opens(L.run(go))
        if O.outcome(key, oc, where, 'rendering with ' + key):
            check_output(O, L, key, where, *oc.value)


def first_bounds(O, L):
    """The bounds first set stay, also where they are zero."""
    where = L.where(CTX, 'set_bounds')
    boxes = [((0.0, 2.0), (0.0, 1.0)), ((-1.0, 1.0), (-.5, 3.0)), ((0.0, 4.0), (1.0, 2.0)), ((-3.0, 0.0), (-2.0, 0.0))]
    dot = [('dot', lambda L: L.new(PR + 'Circle', (.25, .5), .125), 'dark', None)]
    for (a, b), files in itertools.product(itertools.permutations(range(len(boxes)), 2), (False, True)):
        key = '%s box %d then box %d' % ('files' if files else 'layers', a, b)
        L.fresh()

        def go():
            ctx = L.new(CTX, 10)
            for i in (a, b):
                if files:
                    L.call(L.new('recorder:Board', boxes[i], L.list([s[1](L) for s in dot])), 'render', ctx, False)
                else:
                    L.call(ctx, 'render_layer', layer_of(L, dot, bounds=boxes[i]))
            return L.get(ctx, 'surface'), [layer_ops(L, o[4]) for o in ops_of(L, L.get(ctx, 'surface')) if o[3] == 'mask']
        oc = opens(L.run(go))
        if not O.outcome(key, oc, where, 'rendering ' + key):
            continue
        surface, layers = oc.value
        (x0, x1), (y0, y1) = boxes[a]
        O.equal(key + ':size', (L.get(surface, 'width'), L.get(surface, 'height')), ((x1 - x0) * 10, (y1 - y0) * 10), where, 'size of the image')
        O.equal(key + ':layers', len(layers), 2, where, 'layers on the image')
        d = ('disk', ((.25 - x0) * 10, (y1 - .5) * 10), .625)
        for n, ops in enumerate(layers):
            got = [o for o in ops if o[3][0] == 'mask']
            r = compare_masks(got[0][3][1], [('over', d)]) if len(got) == 1 else False
            if r is True:
                O.ok('%s:%d:place' % (key, n))
            elif r is None:
                O.undecided('%s:%d:place' % (key, n), 'place of a circle not decided')
            else:
                O.fail('%s:%d:place' % (key, n), where, 'a circle at (0.25, 0.5) is drawn at %s on layer %d, expected %s' % (show_mask(got[0][3][1]) if got else None, n, show(d)))


def theme_of(L, name):
    return L.I.bm.getitem(L.obj_from('gerber.render.theme:THEMES'), name)


def colors(L, s):
    c = L.get(s, 'color')
    return (tuple(c if isinstance(c, tuple) else L.items(c)), L.get(s, 'alpha'), L.get(s, 'invert'), L.get(s, 'mirror'))


def setting(L, theme, cls):
    s = L.call(theme, 'get', cls)
    return colors(L, s) if s is not None else ((0.0, 0.0, 0.0), 1.0, False, False)


def render_layers(O, L):
    where = L.where(CTX, 'render_layers')
    boxes = [((0.0, 2.0), (0.0, 1.0)), ((-1.0, 1.0), (0.5, 3.0)), ((-.5, .5), (-.25, .25)), ((1.0, 9.0), (2.0, 3.0)), ((-3.0, 0.0), (-2.0, 0.0)), ((-4.0, -1.0), (-5.0, -3.0))]
    shape = [('dot', lambda L: L.new(PR + 'Circle', (.25, .5), .125), 'dark', None)]
    combos = [[0], [1], [0, 1], [1, 0], [2, 3], [0, 1, 2], [3, 1, 0], [4], [5], [5, 4], [4, 5], [0, 4]]
    for combo, (mw, mh), name in itertools.product(combos, ((800, 600), (300, 900)), ('a.png', 'b.svg')):
        key = 'layers in boxes %s within %dx%d to %s' % (combo, mw, mh, name)
        L.fresh()
        del L.I.st.events[:]
        x0, x1 = min(boxes[i][0][0] for i in combo), max(boxes[i][0][1] for i in combo)
        y0, y1 = min(boxes[i][1][0] for i in combo), max(boxes[i][1][1] for i in combo)
        scale = math.floor(min(mw / (x1 - x0), mh / (y1 - y0)))

        def go():
            ctx = L.new(CTX, S)
            th, want = themes(L)
            ls = [layer_of(L, shape, cls, boxes[i]) for i, cls in zip(combo, ('top', 'topmask', 'drawing'))]
            L.call(ctx, 'render_layers', L.list(ls), name, th, max_width=mw, max_height=mh)
            return L.get(ctx, 'surface'), want, [o for o in ops_of(L, L.get(ctx, 'surface'))]
        oc = opens(L.run(go))
        if not O.outcome(key, oc, where, 'rendering ' + key):
            continue
        surface, want, ops = oc.value
        O.equal(key + ':size', (L.get(surface, 'width'), L.get(surface, 'height')), ((x1 - x0) * scale, (y1 - y0) * scale), where, 'size of the image of all layers')
        check_output(O, L, key, where, surface, [want['background']] + [(None,) + want[cls] for cls in ('top', 'topmask', 'drawing')[:len(combo)]])
        for n, (i, cls) in enumerate(zip(combo, ('top', 'topmask', 'drawing'))):
            if len(ops) == len(combo) + 1 and ops[n + 1][3] == 'mask':
                got = [o for o in layer_ops(L, ops[n + 1][4]) if o[3][0] == 'mask']
                d = ('disk', ((.25 - x0) * scale, (y1 - y0) * scale - (.5 - y0) * scale), .0625 * scale)
                if len(got) == 1 and got[0][3][0] == 'mask':
                    r = compare_masks(got[0][3][1], [('over', d)])
                    if r is True:
                        O.ok('%s:%d:place' % (key, n))
                    else:
                        O.fail('%s:%d:place' % (key, n), where, 'a circle at (0.25, 0.5) is drawn at %s, expected %s' % (show_mask(got[0][3][1]), show(d)))
                else:
                    O.fail('%s:%d:shapes' % (key, n), where, '%d shapes on layer %d, expected 1' % (len(got), n))
        saved(O, L, key, where, surface, name)


    # nothing to draw
    for name in ('a.png', 'b.svg'):
        key = 'no layers to %s' % name
        L.fresh()
        del L.I.st.events[:]

        def go():
            ctx = L.new(CTX, S)
            th, _ = themes(L)
            L.call(ctx, 'render_layers', L.list([]), name, th, max_width=800, max_height=600)
            return L.get(ctx, 'surface')
        oc = opens(L.run(go))
        if O.outcome(key, oc, where, 'rendering ' + key):
            w = L.items(L.get(oc.value, 'written')) if isinstance(oc.value, Ref) else []
            O.equal(key, (len(w), len([e for e in L.I.st.events if e[0] == 'open'])), (0, 0), where, 'files written for ' + key)


def saved(O, L, key, where, surface, name):
    written = L.items(L.get(surface, 'written'))
    opened = [e[1] for e in L.I.st.events if e[0] == 'open']
    if name.lower().endswith('.svg'):
        O.equal(key + ':written', len(written), 0, where, 'PNG files written')
        O.equal(key + ':finished', L.get(surface, 'finished'), True, where, 'finished image')
        O.equal(key + ':opened', tuple(tuple(e[:2]) for e in opened), ((name, 'wb'),), where, 'files opened')
        for _, _, h in opened:
            O.equal(key + ':closed', L.get(h, 'closed'), True, where, 'closed file')
            O.equal(key + ':content', ''.join(x for x in L.items(L.get(h, 'out')) if isinstance(x, str)), 'svg of %d operations' % len(L.items(L.get(surface, 'ops'))), where, 'content of the file')
    else:
        O.equal(key + ':written', tuple(written), (name,), where, 'PNG files written')
        O.equal(key + ':opened', len(opened), 0, where, 'files opened')


def themes(L):
    """A theme with symbolic settings for some layers, none for 'drawing'."""
    want, kw = {}, {}
    for n, (cls, inv) in enumerate((('background', False), ('top', False), ('topmask', True), ('bottom', False))):
        s, rgb, al = settings_of(L, n + 10, inv, False)
        kw[cls] = s
        want[cls] = ('background', rgb, al) if cls == 'background' else (rgb, al, inv, False)
    want['drawing'] = ((0.0, 0.0, 0.0), 1.0, False, False)
    return L.new('gerber.render.theme:Theme', 'mine', **kw), want


def outputs(O, L):
    where = L.where(CTX, 'dump')
    for name in ('a.png', 'b.svg', 'c.SVG', 'dir/d.Png', 'svg'):
        key = 'saving as %s' % name
        L.fresh()
        del L.I.st.events[:]

        def go():
            ctx = L.new(CTX, S)
            L.call(ctx, 'render_layer', layer_of(L, SHAPES[:1]), filename=name)
            return L.get(ctx, 'surface')
        oc = opens(L.run(go))
        if O.outcome(key, oc, where, key):
            saved(O, L, key, where, oc.value, name)
    for names in (('dump_str',), ('dump_svg_str',), ('dump_str', 'dump_svg_str'), ('dump_svg_str', 'dump_svg_str'), ('dump_str', 'dump_str'), ('b.svg', 'dump_svg_str'), ('dump_svg_str', 'b.svg'), ('b.svg', 'c.svg'), ('a.png', 'dump_str', 'b.svg')):
        key = 'image by %s' % ', '.join(names)
        L.fresh()
        del L.I.st.events[:]

        def go():
            ctx = L.new(CTX, S)
            L.call(ctx, 'render_layer', layer_of(L, SHAPES[:2]))
            n = len(L.items(L.get(L.get(ctx, 'surface'), 'ops')))
            out = []
            for m in names:
                if '.' in m:
                    L.call(ctx, 'dump', m)
                    if m.endswith('svg'):
                        hs = [e[1][2] for e in L.I.st.events if e[0] == 'open']
                        out.append(''.join(L.items(L.get(hs[-1], 'out'))) if hs else None)
                    else:
                        out.append('png of %d operations' % n)
                else:
                    out.append(L.call(ctx, m))
            return n, out
        oc = opens(L.run(go))
        w = L.where(CTX, names[-1] if '.' not in names[-1] else 'dump')
        if O.outcome(key, oc, w, key):
            n, out = oc.value
            for k, (m, got) in enumerate(zip(names, out)):
                O.equal('%s:%d' % (key, k), got, '%s of %d operations' % ('svg' if 'svg' in m else 'png', n), w, 'content of the image given by %s (%s)' % (m, key))
    # a cleared context starts over
    key = 'cleared context'
    L.fresh()

    def go():
        ctx = L.new(CTX, S)
        bg, brgb, bal = settings_of(L, 0, back=True)
        s, rgb, al = settings_of(L, 1)
        L.call(ctx, 'render_layer', layer_of(L, SHAPES[:2], bounds=((OX - A, OX), (OY, OY + B))), settings=s, bgsettings=bg)
        L.call(ctx, 'clear')
        L.call(ctx, 'render_layer', layer_of(L, SHAPES[:3]), settings=s, bgsettings=bg)
        return L.get(ctx, 'surface'), [('background', brgb, bal), (SHAPES[:3], rgb, al, False, False)]
    oc = opens(L.run(go))
    w = L.where(CTX, 'clear')
    if O.outcome(key, oc, w, 'rendering after clear'):
        O.equal(key + ':size', (L.get(oc.value[0], 'width'), L.get(oc.value[0], 'height')), (W * S, H * S), w, 'size of the image after clear')
        check_output(O, L, key, w, *oc.value)


RUNS = {f.__name__: f for f in (macros, test_points, render_file, render_layer, render_layers, first_bounds, outputs)}
