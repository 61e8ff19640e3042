G = 'gerber/gerber_statements.py'
X = 'gerber/excellon_statements.py'
P = 'gerber/primitives.py'
R = 'gerber/rs274x.py'
SEEDS = [
    dict(sid='c29_eq_code', prop='C29', edits=[(G, "    def __eq__(self, other):\n        return self.__dict__ == other.__dict__\n", "    def __eq__(self, other):\n        if isinstance(other, Statement) and self.type != other.type:\n            return False\n        return all(getattr(other, k, v) == v for k, v in self.__dict__.items() if v is not None)\n")],
         needs='a statement with a value missing compared with one that has it', breaks='a statement with missing coordinates equals one that has them',
         demo="from gerber.gerber_statements import CoordStmt\na = CoordStmt('G01', 1.0, None, None, None, 'D01', None)\nb = CoordStmt('G01', 1.0, 2.0, None, None, 'D01', None)\nassert a != b\nassert a == CoordStmt('G01', 1.0, None, None, None, 'D01', None)\n"),
    dict(sid='c29_tool_depth', prop='C29', edits=[(X, "            and self.depth_offset == other.depth_offset\n", "            and (self.depth_offset or 0) <= (other.depth_offset or 0)\n")],
         needs='tools that differ in depth only, the shallower one asking', breaks='tools of different depth are equivalent',
         demo="from gerber.excellon_statements import ExcellonTool\nfrom gerber.cam import FileSettings\na = ExcellonTool(FileSettings(), number=1, diameter=.1, depth_offset=.1)\nb = ExcellonTool(FileSettings(), number=2, diameter=.1, depth_offset=.2)\nassert not a.equivalent(b) and not b.equivalent(a)\nassert a.equivalent(a)\n"),
    dict(sid='c29_from_tool_rate', prop='C29', edits=[(X, "        args['retract_rate'] = tool.retract_rate\n", "        args['retract_rate'] = tool.feed_rate\n")],
         needs='a tool with different feed and retract rates copied', breaks='the copy of a tool retracts at the feed rate',
         demo="from gerber.excellon_statements import ExcellonTool\nfrom gerber.cam import FileSettings\na = ExcellonTool(FileSettings(), number=1, diameter=.1, feed_rate=3, retract_rate=5)\nassert ExcellonTool.from_tool(a).retract_rate == 5\n"),
    dict(sid='c29_rect_rotation', prop='C29', edits=[(P, "self.rotation != other.rotation or self.hole_diameter", "abs(self.rotation) != abs(other.rotation) or self.hole_diameter")],
         needs='rectangles turned by opposite angles', breaks='rectangles turned left and right by the same angle are equivalent',
         demo="from gerber.primitives import Rectangle\na = Rectangle((0, 0), 1, 2, rotation=.5)\nb = Rectangle((0, 0), 1, 2, rotation=-.5)\nassert not a.equivalent(b, (0, 0))\nassert a.equivalent(Rectangle((1, 1), 1, 2, rotation=.5), (-1, -1))\n"),
    dict(sid='c29_outline_first', prop='C29', edits=[(P, "        return nearly_equal(self.start, equiv_start) and nearly_equal(self.end, equiv_end)", "        return nearly_equal(self.start, equiv_start) and (nearly_equal(self.end, equiv_end) or other.start == other.end)")],
         needs='a line of no length compared with one that has a length', breaks='a line of no length is equivalent to any line from the same point',
         demo="from gerber.primitives import Line, Circle\nc = Circle(None, 0)\nassert not Line((0, 0), (1, 0), c).equivalent(Line((0, 0), (0, 0), c), (0, 0))\n"),
    dict(sid='c29_region_flashed', prop='C29', edits=[(P, "    def __init__(self, primitives, **kwargs):\n        super(Region, self).__init__(**kwargs)\n        self.primitives = primitives\n        self._to_convert = ['primitives']\n\n    @property\n    def flashed(self):\n        return False", "    def __init__(self, primitives, **kwargs):\n        super(Region, self).__init__(**kwargs)\n        self.primitives = primitives\n        self._to_convert = ['primitives']\n\n    @property\n    def flashed(self):\n        return len(self.primitives) == 0")],
         needs='a region without lines', breaks='an empty region is taken for a flash', demo="from gerber.primitives import Region\nassert Region([]).flashed is False\n"),
    dict(sid='c29_repeat_text', prop='C29', edits=[(X, "            self.ydelta if self.ydelta is not None else 0)", "            self.ydelta if self.xdelta is not None and self.ydelta is not None else 0)")],
         needs='a repeated hole that moves along y only', breaks='the text of a repeat along y alone gives no y distance',
         demo="from gerber.excellon_statements import RepeatHoleStmt\nassert '2.5' in str(RepeatHoleStmt(4, None, 2.5))\nassert '1.5' in str(RepeatHoleStmt(4, 1.5, None))\n"),
    dict(sid='c29_coord_text', prop='C29', edits=[(G, "        if self.i is not None:\n            coord_str += 'I: %g ' % self.i\n        if self.j is not None:\n            coord_str += 'J: %g ' % self.j\n        if self.op:", "        if self.i:\n            coord_str += 'I: %g ' % self.i\n        if self.j is not None:\n            coord_str += 'J: %g ' % self.j\n        if self.op:")],
         needs='an arc with an offset of 0 along x', breaks='the text of an arc leaves out an x offset of 0',
         demo="from gerber.gerber_statements import CoordStmt\nassert 'I: 0 ' in str(CoordStmt('G02', 1., 2., 0., 1., 'D01', None))\n"),
]
