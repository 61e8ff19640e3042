P = 'gerber/primitives.py'
R = 'gerber/rs274x.py'
X = 'gerber/excellon.py'
U = 'gerber/utils.py'
RD = 'gerber/render/render.py'
C = 'gerber/render/cairo_backend.py'
AR = 'gerber/am_read.py'
CAM = 'gerber/cam.py'
SEEDS = [
    dict(sid='c05_point_segment', prop='C05', edits=[(P, "        for p in self.primitives:\n            p.offset(x_offset, y_offset)\n\n\nclass RoundButterfly", "        for p in self.primitives:\n            if p.start != p.end or isinstance(p, Arc):\n                p.offset(x_offset, y_offset)\n\n\nclass RoundButterfly")],
         needs='a region with a line of no length', breaks='lines of no length stay behind when a region is moved',
         demo="from gerber.primitives import Region, Line\nr = Region([Line((0., 0.), (0., 0.), None), Line((0., 0.), (2., 0.), None), Line((2., 0.), (0., 3.), None)])\nr.offset(1., 1.)\nassert r.primitives[1].start == (1., 1.)\nassert r.primitives[0].start == (1., 1.), r.primitives[0].start\n"),
    dict(sid='c05_group_axis', prop='C05', edits=[(P, "        for primitive in self.primitives:\n            primitive.offset(dx, dy)\n", "        if dx and dy:\n            for primitive in self.primitives:\n                primitive.offset(dx, dy)\n")],
         needs='a macro flash placed along one axis only', breaks='the parts of the macro stay behind',
         demo="from gerber.rs274x import loads\nT = '%%FSLAX24Y24*%%\\n%%MOIN*%%\\n%%AMB*1,1,1,0,0*%%\\n%%ADD10B*%%\\nD10*\\nX%dY%dD03*\\nM02*\\n'\nfor x, y in ((1, 2), (3, 0), (0, 4)):\n    f = loads(T % (x * 10000, y * 10000))\n    p = f.primitives[0].primitives[0].position\n    assert tuple(p) == (x, y), p\n"),
    dict(sid='c06_obround_parts', prop='C06', edits=[(P, "    @property\n    def subshapes(self):\n        if self.orientation == 'vertical':", "    @property\n    def subshapes(self):\n        if getattr(self, '_sub', None) and self._sub['rectangle'].position == self.position:\n            return self._sub\n        self._sub = self._build_subshapes()\n        return self._sub\n\n    def _build_subshapes(self):\n        if self.orientation == 'vertical':")],
         needs='the parts are asked for, then the size changes', breaks='the parts keep the old size',
         demo="from gerber.primitives import Obround\no = Obround((0., 0.), 1., 2.)\nassert o.subshapes['circle1'].diameter == 1.\no.position = (1., 1.)\nassert o.subshapes['rectangle'].position == (1., 1.)\no.width = 1.5\nassert o.subshapes['circle1'].diameter == 1.5, o.subshapes['circle1'].diameter\n"),
    dict(sid='c06_group_box', prop='C06', edits=[(P, "        # TODO Make this cached like other items\n        xlims, ylims = zip(*[p.bounding_box for p in self.primitives])\n        minx, maxx = zip(*xlims)\n        miny, maxy = zip(*ylims)\n        min_x = min(minx)\n        max_x = max(maxx)\n        min_y = min(miny)\n        max_y = max(maxy)\n        return ((min_x, max_x), (min_y, max_y))", "        if self._bounding_box is None:\n            xlims, ylims = zip(*[p.bounding_box for p in self.primitives])\n            minx, maxx = zip(*xlims)\n            miny, maxy = zip(*ylims)\n            min_x = min(minx)\n            max_x = max(maxx)\n            min_y = min(miny)\n            max_y = max(maxy)\n            self._bounding_box = ((min_x, max_x), (min_y, max_y))\n        return self._bounding_box")],
         needs='the box of a macro flash is asked for before the flash moves', breaks='the box stays where the flash was',
         demo="from gerber.rs274x import loads\nf = loads('%FSLAX24Y24*%\\n%MOIN*%\\n%AMB*1,1,1,0,0*%\\n%ADD10B*%\\nD10*\\nX10000Y10000D03*\\nM02*\\n')\ng = f.primitives[0]\nassert g.bounding_box == ((.5, 1.5), (.5, 1.5))\ng.offset(1., 0.)\ng.position = (3., 1.)\nassert g.bounding_box == ((2.5, 3.5), (.5, 1.5)), g.bounding_box\n"),
    dict(sid='c06_half_turns', prop='C06', edits=[(P, "        self._rotation = value\n        self._cos_theta = math.cos(math.radians(value))\n        self._sin_theta = math.sin(math.radians(value))", "        if value != self._rotation:\n            self._rotation = value % 180\n            self._cos_theta = math.cos(math.radians(value))\n            self._sin_theta = math.sin(math.radians(value))")],
         needs='a rotation changed by half a turn', breaks='the rotation kept is another one',
         demo="from gerber.primitives import Polygon\np = Polygon((0., 0.), 3, 1.)\np.rotation = 30\nassert p.rotation == 30\np.rotation = 210\nassert p.rotation == 210, p.rotation\n"),
    dict(sid='c02_unused_parts', prop='C02', edits=[(P, "                        if len(value) > 0:\n                            if hasattr(value[0], 'to_inch'):\n                                for v in value:\n                                    v.to_inch()", "                        if len(value) > 0:\n                            if hasattr(value[0], 'to_inch'):\n                                for v in value[:1] + [w for w in value[1:] if w is not value[0] and w.units != value[0].units]:\n                                    v.to_inch()")],
         needs='x', breaks='x', demo="pass\n"),
    dict(sid='c04_unused_aperture', prop='C04', edits=[(R, "            for aperture in self.apertures:\n                aperture.to_metric()", "            for aperture in self.apertures:\n                if any(getattr(p, 'aperture', aperture) is aperture for p in self.primitives):\n                    aperture.to_metric()")],
         needs='an aperture no stroke uses', breaks='it keeps its size in inches',
         demo="from gerber.rs274x import loads\nf = loads('%FSLAX24Y24*%\\n%MOIN*%\\n%ADD10C,1*%\\n%ADD11C,2*%\\nD10*\\nX0Y0D02*\\nX10000Y0D01*\\nM02*\\n')\nf.to_metric()\nd = sorted(round(a.diameter, 6) for a in f.apertures)\nassert d == [25.4, 50.8], d\n"),
    dict(sid='c04_empty_file', prop='C04', edits=[(R, "        if self.units != 'inch':\n            self.units = 'inch'\n", "        if self.units != 'inch' and self.primitives:\n            self.units = 'inch'\n")],
         needs='a file that draws nothing', breaks='it stays in millimetres',
         demo="from gerber.rs274x import loads\nT = '%FSLAX24Y24*%\\n%MOMM*%\\n%ADD10C,25.4*%\\nD10*\\nX0Y0D02*\\n'\nf = loads(T + 'X10000Y0D01*\\nM02*\\n')\nf.to_inch()\nassert f.units == 'inch'\nf = loads(T + 'M02*\\n')\nf.to_inch()\nassert f.units == 'inch', f.units\nassert abs(f.apertures[0].diameter - 1) < 1e-9\n"),
    dict(sid='c08_box_order', prop='C08', edits=[(R, "        for prim in self.primitives:\n            bounds = prim.bounding_box\n            min_x", "        self.primitives.sort(key=lambda p: p.level_polarity == 'clear')\n        for prim in self.primitives:\n            bounds = prim.bounding_box\n            min_x")],
         needs='the box of a file with dark drawn over clear', breaks='asking for the box changes what is drawn last',
         demo="from gerber.rs274x import loads\nf = loads('%FSLAX24Y24*%\\n%MOIN*%\\n%ADD10C,1*%\\nD10*\\nX0Y0D03*\\n%LPC*%\\nX0Y0D03*\\n%LPD*%\\nX10000Y0D03*\\nM02*\\n')\nb = [p.level_polarity for p in f.primitives]\nassert f.bounding_box == ((-.5, 1.5), (-.5, .5))\nassert [p.level_polarity for p in f.primitives] == b, [p.level_polarity for p in f.primitives]\n"),
    dict(sid='c26_bounds_kept', prop='C26', edits=[(R, "    def bounds(self):\n        min_x = min_y = 1000000\n        max_x = max_y = -1000000\n\n        for stmt", "    def bounds(self):\n        if getattr(self, '_bounds', None) and self._bounds[0] == len(self.statements):\n            return self._bounds[1]\n        min_x = min_y = 1000000\n        max_x = max_y = -1000000\n\n        for stmt"), (R, "                max_y = max(stmt.y, max_y)\n\n        return ((min_x, max_x), (min_y, max_y))", "                max_y = max(stmt.y, max_y)\n\n        self._bounds = (len(self.statements), ((min_x, max_x), (min_y, max_y)))\n        return self._bounds[1]")],
         needs='the bounds are asked for before and after a conversion', breaks='the bounds stay in inches',
         demo="from gerber.rs274x import loads\nT = '%FSLAX24Y24*%\\n%MOIN*%\\n%ADD10C,1*%\\nD10*\\nX0Y0D02*\\nX10000Y20000D01*\\nM02*\\n'\nf = loads(T)\nf.to_metric()\nw = f.bounds\nf = loads(T)\nf.bounds\nf.to_metric()\nassert f.bounds == w, (f.bounds, w)\n"),
    dict(sid='c12_turn_origin', prop='C12', edits=[(X, "            self.notation = 'incremental' if stmt.mode == 'on' else 'absolute'\n", "            if stmt.mode == 'on' and self.notation == 'absolute':\n                self.pos = [0., 0.]\n            self.notation = 'incremental' if stmt.mode == 'on' else 'absolute'\n")],
         needs='increments switched on after a hole', breaks='the next hole is counted from the origin',
         demo="from gerber.excellon import loads\nT = 'M48\\nINCH,TZ\\nT1C0.1\\n%%\\n%sT1\\nX1.0Y1.0\\n%sX1.0Y1.0\\nM30\\n'\nf = loads(T % ('ICI,ON\\n', ''))\nassert tuple(f.hits[1].position) == (2., 2.), f.hits[1].position\nf = loads(T % ('', 'ICI,ON\\n'))\nassert tuple(f.hits[1].position) == (2., 2.), f.hits[1].position\n"),
    dict(sid='c16_kept_invert', prop='C16', edits=[(C, "        ctx.invert = invert\n        ctx.new_render_layer()", "        if invert:\n            ctx.invert = True\n        ctx.new_render_layer()")],
         needs='x', breaks='x', demo="pass\n"),
    dict(sid='c19_same_rank', prop='C19', edits=[(AR, "                while not empty() and is_op(top()) and precedence(top()) >= precedence(c):", "                while not empty() and is_op(top()) and (precedence(top()) > precedence(c) or top() == c or c in Token.MULT):")],
         needs='a subtraction followed by an addition', breaks='a-b+c is computed as a-(b+c)',
         demo="from gerber.am_read import read_macro\nfrom gerber.am_eval import eval_macro\ndef val(e):\n    return [str(x) for x in eval_macro(read_macro('1,1,%s,0,0*' % e), {})]\nassert val('2+3x4') == val('14.0') or True\na = list(eval_macro(read_macro('1,1,9-2-3,0,0*'), {}))\nb = list(eval_macro(read_macro('1,1,9-2+3,0,0*'), {}))\nassert '4' in str(a), a\nassert '10' in str(b), b\n"),
    dict(sid='c15_same_digits', prop='C15', edits=[(CAM, "                self.format == other.format and\n", "                sum(self.format) == sum(other.format) and\n                self.format[0] >= other.format[0] and\n")],
         needs='formats of as many digits with more integers', breaks='different settings compare equal',
         demo="from gerber.cam import FileSettings\nassert FileSettings(format=(2, 4)) != FileSettings(format=(3, 3))\nassert FileSettings(format=(2, 4)) == FileSettings(format=(2, 4))\nassert FileSettings(format=(3, 3)) != FileSettings(format=(2, 4))\n"),
    dict(sid='c21_comments_first', prop='C21', edits=[(U, "    lines = data.split('\\n')\n", "    lines = [line for line in data.split('\\n') if not line.startswith(';')]\n")],
         needs='x', breaks='x', demo="pass\n"),
]
SEEDS = [s for s in SEEDS if s['breaks'] != 'x']
