M = 'gerber/__main__.py'
RUN = '''import sys
import gerber.__main__ as m
from gerber.render import theme
from gerber.render.cairo_backend import GerberCairoContext
import os, shutil, tempfile
GBR = '%FSLAX24Y24*%\\n%MOIN*%\\n%ADD10C,0.1*%\\nD10*\\nX0Y0D03*\\nX10000Y5000D03*\\nM02*\\n'
DRL = 'M48\\nINCH,TZ\\nT1C0.1\\n%\\nT1\\nX010000Y010000\\nM30\\n'
log = []


def layers(self, layers, filename, theme=None, verbose=False, max_width=800, max_height=600):
    log.append((filename.split('/')[-1], [os.path.basename(l.filename) for l in layers], theme, max_width, max_height))


def layer(self, layer, filename=None, settings=None, *a, **k):
    log.append((os.path.basename(layer.filename), settings))


def dump(self, filename=None, verbose=False):
    log.append((os.path.basename(filename),))


GerberCairoContext.render_layers = layers
GerberCairoContext.render_layer = layer
GerberCairoContext.dump = dump


def main(files, argv, where=None):
    d = tempfile.mkdtemp()
    try:
        for n in files:
            with open(os.path.join(d, n), 'w') as f:
                f.write(DRL if n.endswith('drl') else GBR)
        sys.argv = ['gerber-render'] + [os.path.join(d, a) if a in files or a == '.' else a for a in argv]
        del log[:]
        m.main()
    finally:
        shutil.rmtree(d)
    return list(log)


'''
BOARD = "['b.gtl', 'b.gbl', 'b.gko', 'b.drl', 'b.gts', 'b.gbs', 'b.g1']"
SEEDS = [
    dict(sid='c28_outline_bottom', prop='C28', edits=[(M, "bottom = [outline] + bottom", "bottom = bottom + [outline]")],
         needs='a directory with an outline layer', breaks='the outline is drawn over the bottom layers instead of under them, and sets nothing of the picture',
         demo=RUN + "r = dict((x[0], x[1]) for x in main(%s, ['.', '-o', 'o']))\nassert r['o.bottom.png'][0] == 'b.gko', r\n" % BOARD),
    dict(sid='c28_copper_theme', prop='C28', edits=[(M, "layers=copper, theme=theme.THEMES['Transparent Multilayer']", "layers=copper, theme=theme.THEMES[args.theme if args.theme != 'default' else 'Transparent Multilayer']")],
         needs='a directory and a theme other than the default', breaks='the copper picture is drawn in the theme of the board views, where the layers hide each other',
         demo=RUN + "for t in ('default', 'Blue', 'OSH Park'):\n    r = dict((x[0], x[2]) for x in main(%s, ['.', '-t', t]))\n    assert r['out.copper.png'] is theme.THEMES['Transparent Multilayer'], t\n" % BOARD),
    dict(sid='c28_bottom_size', prop='C28', edits=[(M, "                layers=bottom, theme=theme.THEMES[args.theme],\n                max_height=args.height, max_width=args.width,", "                layers=bottom, theme=theme.THEMES[args.theme],\n                max_height=args.height, max_width=args.height,")],
         needs='a directory with layers on the bottom', breaks='the width of the bottom picture is limited to the height',
         demo=RUN + "for x in main(%s, ['.', '--width', '300', '--height', '200']):\n    assert x[3:] == (300, 200), x\n" % BOARD),
    dict(sid='c28_first_directory', prop='C28', edits=[(M, "        filenames = args.filenames\n", "        filenames = list(dict.fromkeys(args.filenames))\n")],
         needs='the same file given twice', breaks='a file given twice is drawn once', demo=RUN + "r = main(['b.gtl', 'b.gbl'], ['b.gtl', 'b.gbl', 'b.gtl'])\nassert [x[0] for x in r] == ['b.gtl', 'b.gbl', 'b.gtl', 'out.png'], r\n"),
    dict(sid='c28_settings_default', prop='C28', edits=[(M, "theme.THEMES[args.theme].get(layer.layer_class, None)", "theme.THEMES['default'].get(layer.layer_class, None)")],
         needs='files and a theme other than the default', breaks='files are drawn in the default theme whatever theme is asked for',
         demo=RUN + "r = main(['b.gtl', 'b.gbl'], ['b.gtl', 'b.gbl', '-t', 'OSH Park'])\nassert r[0][1].color == theme.THEMES['OSH Park'].top.color and r[1][1].mirror, r\n"),
]
