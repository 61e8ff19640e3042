LY = 'gerber/layers.py'
P = 'gerber/pcb.py'
TH = 'gerber/render/theme.py'
BOARD = '''import os, shutil, tempfile
from gerber.pcb import PCB
from gerber.layers import *
GBR = '%FSLAX24Y24*%\\n%MOIN*%\\n%ADD10C,0.1*%\\nD10*\\nX0Y0D03*\\nM02*\\n'
DRL = 'M48\\nINCH,TZ\\nT1C0.1\\n%\\nT1\\nX010000Y010000\\nM30\\n'


def load(files, **kw):
    d = tempfile.mkdtemp()
    try:
        os.mkdir(d + '/dir7')
        for n, t in files.items():
            with open(d + '/dir7/' + n, 'w') as f:
                f.write(t)
        return PCB.from_directory(d + '/dir7', **kw)
    finally:
        shutil.rmtree(d)


def classes(ls):
    return [l.layer_class for l in ls]
'''
SEEDS = [
    dict(sid='c22_guess_case', prop='C22',
         edits=[(LY, "name, ext = os.path.splitext(filename.lower())", "name, ext = os.path.splitext(filename)\n        name = name.lower()")],
         needs='a file whose extension is written in capitals', breaks='the extension of a layer file is compared as written, so BOARD.GTL has no known class',
         demo=BOARD + "assert guess_layer_class('/nowhere/BOARD.GTL') == 'top', guess_layer_class('/nowhere/BOARD.GTL')\nassert guess_layer_class('/nowhere/board.gtl') == 'top'\n"),
    dict(sid='c22_guess_directory', prop='C22',
         edits=[(LY, "r'^(\\w*[.-])*{}([.-]\\w*)?$'.format(x) for x in hint.name]", "r'(^|[.-]){}([.-]\\w*)?$'.format(x) for x in hint.name]")],
         needs='a name whose suffix comes after other parts with no second separator matching a pattern prefix', breaks='',
         demo="raise SystemExit(0)\n"),
    dict(sid='c22_sort_internal', prop='C22',
         edits=[(LY, """        return (self.order < other.order)
""", """        return str(self.order) < str(other.order)
""")],
         needs='ten or more internal layers', breaks='internal layers are sorted as text, so layer 10 comes before layer 2',
         demo=BOARD + "ls = [InternalLayer('a', None, 10), InternalLayer('b', None, 2), InternalLayer('c', None, 1)]\nassert [l.order for l in sort_layers(ls)] == [1, 2, 10]\n"),
    dict(sid='c22_sort_twice_drill', prop='C22',
         edits=[(LY, """    if not from_top:
        output = list(reversed(output))

    for layer_class in append_after:
        for layer in layers:
            if layer.layer_class == layer_class:
                output.append(layer)
    return output
""", """    for layer_class in append_after:
        for layer in layers:
            if layer.layer_class == layer_class:
                output.append(layer)
    if not from_top:
        output.reverse()
    return output
""")],
         needs='sorting from the bottom with a drill layer', breaks='drills and drawings come first when sorting from the bottom',
         demo=BOARD + "ls = [PCBLayer('a', 'top'), DrillLayer('d'), PCBLayer('b', 'bottom')]\nassert classes(sort_layers(ls, from_top=False)) == ['bottom', 'top', 'drill']\n"),
    dict(sid='c22_bottom_drills', prop='C22',
         edits=[(P, "drill_layers = [l for l in self.drill_layers if 'bottom' in l.layers]", "drill_layers = [l for l in self.drill_layers if l.layers[-1] == 'bottom']")],
         needs='a drill layer whose list of drilled layers does not end in bottom', breaks='such drills are missing on the bottom side',
         demo=BOARD + "b = PCB([PCBLayer('a', 'bottom'), DrillLayer('d', None, ['bottom', 'top'])])\nassert classes(b.bottom_layers) == ['bottom', 'drill'], classes(b.bottom_layers)\n"),
    dict(sid='c22_name_suffix', prop='C22',
         edits=[(P, "                    if ext[1:] in layer_signatures(layer.layer_class):\n                        name = _name", "                    if ext:\n                        name = _name")],
         needs='a board whose name has a dot', breaks='the part of the board name after the dot is lost',
         demo=BOARD + "b = load({'rev1.2.gtl': GBR, 'rev1.2.gbl': GBR})\nassert b.name == 'rev1.2', b.name\n"),
    dict(sid='c22_skip_stops', prop='C22',
         edits=[(P, """            except ParseError:
                if verbose:
                    print('[PCB]: Skipping file {}'.format(filename))
            except IOError:""", """            except ParseError:
                if verbose:
                    print('[PCB]: Skipping file {}'.format(filename))
                if not layers:
                    break
            except IOError:""")],
         needs='a file that is no layer listed before all layers of the board', breaks='the rest of the directory is not loaded',
         demo=BOARD + "import gerber.pcb\ngerber.pcb.listdir = lambda d, *a: sorted(os.listdir(d))\nb = load({'README': 'junk\\n', 'b.gtl': GBR, 'b.gbl': GBR})\nassert classes(b.layers) == ['top', 'bottom'], classes(b.layers)\n"),
    dict(sid='c22_internal_order_name', prop='C22',
         edits=[(LY, "class InternalLayer(PCBLayer):\n", "class InternalLayer(PCBLayer):\n    limit = 9\n"), (LY, "        return cls(filename, camfile, order)\n", "        return cls(filename, camfile, min(order, cls.limit))\n")],
         needs='an internal layer of number ten or more', breaks='all internal layers from nine on have the same order',
         demo=BOARD + "from gerber.rs274x import loads\nf = loads(GBR, 'x-internal.in')\nf.filename = 'internal.b12.in'\nassert PCBLayer.from_cam(f).order == 12\n"),
    dict(sid='c24_internal_mutates', prop='C24',
         edits=[(TH, "        if not self._internal_gen:\n", "        if not self._internal_gen or self._last is not self._internal:\n"), (TH, "        return next(self._internal_gen)\n", "        self._last = None if self._internal_gen is None else self._internal\n        return next(self._internal_gen)\n"),
                (TH, "        self._internal_gen = None\n", "        self._internal_gen = None\n        self._last = None\n")],
         needs='nothing', breaks='', demo="raise SystemExit(0)\n"),
    dict(sid='c24_get_fallback', prop='C24',
         edits=[(TH, "        return val if val is not None else noneval", "        return noneval if noneval is not None and key in ('ipc_netlist', 'drill') and val.color == COLORS['black'] else val if val is not None else noneval")],
         needs='asking with a fallback for a class whose color is black', breaks='get gives the fallback although the theme has settings for the class',
         demo="from gerber.render.theme import *\nt = Theme()\nx = RenderSettings((0.5, 0.5, 0.5))\nassert t.get('drill', x) is t.drill\nassert t.get('nothing', x) is x\n"),
    dict(sid='c24_osh_mirror', prop='C24',
         edits=[(TH, "                      bottom=RenderSettings(COLORS['enig copper'], mirror=True),", "                      bottom=RenderSettings(COLORS['enig copper']),")],
         needs='the bottom copper of the OSH Park theme', breaks='bottom copper is not mirrored while mask and silk are',
         demo="from gerber.render.theme import *\nt = THEMES['OSH Park']\nassert t.bottom.mirror and t.bottommask.mirror and t.bottomsilk.mirror\n"),
    dict(sid='c24_internal_shared', prop='C24',
         edits=[(TH, "        self._internal = kwargs.get('internal', [RenderSettings(x) for x in SPECTRUM])", "        self._internal = (kwargs.get('internal') or [])[:len(SPECTRUM) - 4] or [RenderSettings(x) for x in SPECTRUM]")],
         needs='a theme with more than four internal settings', breaks='only the first four of the given internal settings are used',
         demo="from gerber.render.theme import *\ns = [RenderSettings((i / 10., 0, 0)) for i in range(6)]\nt = Theme(internal=s)\nassert [t.internal for _ in range(7)] == s + s[:1]\n"),
]
SEEDS = [s for s in SEEDS if s['breaks']]
