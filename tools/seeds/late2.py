

ns = {}
exec(open('tools/seeds/c17.py').read(), ns)
PNG = ns['PNG']
ns = {}
exec(open('tools/seeds/c28.py').read(), ns)
MAIN = ns['RUN']
C = 'gerber/render/cairo_backend.py'
G = 'gerber/gerber_statements.py'
X = 'gerber/excellon.py'
M = 'gerber/__main__.py'
ET = 'gerber/excellon_tool.py'
SEEDS = [
    dict(sid='c17_left_of_zero', prop='C17', edits=[(C, "                x_range[1] = max(x_range[1], layer_x[1])\n                y_range[0]", "                x_range[1] = max(x_range[1], layer_x[1] or x_range[1])\n                y_range[0]")],
         needs='a board that ends at x = 0', breaks='the size of the picture does not come from its layers',
         demo="import os, shutil, tempfile\n" + PNG + "d = tempfile.mkdtemp()\ntry:\n    for x in (1, 0):\n        n = os.path.join(d, 'a.png')\n        l = PCBLayer('x', 'top', Board(((x - 4, x), (0, 2)), [Circle((x - 2, 1), 1)]))\n        GerberCairoContext().render_layers([l], n, max_width=400, max_height=400)\n        rows = png(open(n, 'rb').read())\n        assert (len(rows), len(rows[0])) == (200, 400), (len(rows), len(rows[0]))\nfinally:\n    shutil.rmtree(d)\n"),
    dict(sid='c17_open_contour', prop='C17', edits=[(C, "                    if isinstance(prim, Line):\n                        mask.ctx.line_to(*self.scale_point(prim.end))", "                    if isinstance(prim, Line):\n                        if prim is region.primitives[-1]:\n                            continue\n                        mask.ctx.line_to(*self.scale_point(prim.end))")],
         needs='a region whose last line does not return to its start', breaks='its last corner is cut off',
         demo=PNG + "P = [(.2, .2), (3.8, .2), (3.8, 3.8), (.2, 3.8)]\nfor ps in (P + P[:1], P):\n    r = Region([Line(a, b, None) for a, b in zip(ps, ps[1:])])\n    v = draw(((0, 4), (0, 4)), ([r], RenderSettings(WHITE)))\n    assert v(.5, 3.5) > 200 and v(3.5, .5) > 200, len(ps)\n"),
    dict(sid='c26_zero_depth', prop='C26', edits=[(X, "        if kwargs.get('depth_offset') is not None:", "        if kwargs.get('depth_offset'):")],
         needs='the depth offset of a tool set back to zero', breaks='the tool keeps its depth offset',
         demo="from gerber.excellon import loads\nf = loads('M48\\nINCH,TZ\\nT1C0.1\\n%\\nT1\\nX1.0Y1.0\\nM30\\n')\nf.update_tool(1, depth_offset=.5)\nassert f.tools[1].depth_offset == .5\nf.update_tool(1, depth_offset=0)\nassert f.tools[1].depth_offset == 0, f.tools[1].depth_offset\nassert f.hits[0].tool.depth_offset == 0\n"),
    dict(sid='c11_equal_scales', prop='C11', edits=[(G, "        ret = '%SF'\n        if self.a is not None:\n            ret += 'A' + decimal_string(self.a, precision=5)\n        if self.b is not None:", "        ret = '%SF'\n        if self.a is not None:\n            ret += 'A' + decimal_string(self.a, precision=5)\n        if self.b is not None and self.b != self.a:")],
         needs='equal scale factors other than 1', breaks='the factor of the second axis is lost',
         demo="from gerber.rs274x import loads\nfrom gerber.gerber_statements import SFParamStmt\nT = '%%FSLAX24Y24*%%\\n%%MOIN*%%\\n%%SFA%sB%s*%%\\nM02*\\n'\nfor a, b in (('2', '3'), ('1', '1'), ('2', '2')):\n    f = loads(T % (a, b))\n    s = [x for x in f.statements if isinstance(x, SFParamStmt)][0]\n    f = loads('\\n'.join(x.to_gerber(f.settings) for x in f.statements))\n    t = [x for x in f.statements if isinstance(x, SFParamStmt)][0]\n    assert (s.a, s.b) == (t.a, t.b), (s.a, s.b, t.a, t.b)\n"),
    dict(sid='c28_empty_skipped', prop='C28', edits=[(M, "            renderer.render_layer(layer, settings=settings)\n", "            if layer.primitives:\n                renderer.render_layer(layer, settings=settings)\n")],
         needs='a solder mask file without openings', breaks='the mask is not drawn at all',
         demo=MAIN + "\nassert [x[0] for x in main(['b.gtl', 'b.gts'], ['b.gtl', 'b.gts'])] == ['b.gtl', 'b.gts', 'out.png']\nGBR = GBR.replace('X0Y0D03*\\nX10000Y5000D03*\\n', '')\nassert [x[0] for x in main(['b.gtl', 'b.gts'], ['b.gtl', 'b.gts'])] == ['b.gtl', 'b.gts', 'out.png'], log\n"),
    dict(sid='c27_exact_optional', prop='C27', edits=[(ET, "                elif platedstr == 'OPTIONAL':", "                elif platedstr == 'OPTIONAL' and xtol:")],
         needs='an optional hole without tolerance', breaks='its plating is unknown',
         demo="from gerber.excellon_tool import loads\nfrom gerber.excellon_statements import ExcellonTool\nT = 'Holesize 1. = 12.0 Tolerance = +%s/-0.0 OPTIONAL MILS Quantity = 3\\n'\nfor t in ('1.0', '0.0'):\n    assert loads(T % t)[1].plated == ExcellonTool.PLATED_OPTIONAL, t\n"),
    dict(sid='c27_long_rows', prop='C27', edits=[(ET, "            if len(parts) == 6:\n                toolid", "            if len(parts) >= 6 and parts[0].isdigit():\n                toolid")],
         needs='a line of more than six fields under the head of a report', breaks='it is read as a tool',
         demo="from gerber.excellon_tool import loads_rep\nT = '====  ====  ====  ====  =====  ===\\n1 0.5 x 100 200 3\\n'\nassert sorted(loads_rep(T)) == [1]\nassert sorted(loads_rep(T + '2 0.5 x 100 200 3 4\\n')) == [1], 'long row'\n"),
    dict(sid='c27_zero_speed', prop='C27', edits=[(ET, "                                    rpm=speed)", "                                    rpm=speed or None)")],
         needs='a tool of speed zero', breaks='its speed is left unset',
         demo="from gerber.excellon_tool import loads_rep\nT = '====  ====  ====  ====  =====  ===\\n1 0.5 x 100 %d 3\\n'\nfor n in (5, 0):\n    assert loads_rep(T % n)[1].rpm == n, n\n"),
]
