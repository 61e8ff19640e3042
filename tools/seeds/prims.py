P = 'gerber/primitives.py'
A = 'gerber/am_statements.py'
SEEDS = [
 dict(sid='c02_axis_point', prop='C02', edits=[(P, """                                        [tuple(map(metric, point))
                                         for point in value])
                            else:
""", """                                        [tuple(map(metric, point))
                                         for point in value])
                            elif value[0] is not None and value[1]:
""")],
      needs='a primitive with a point on the x axis (y == 0), converted to metric', breaks='points whose y coordinate is 0 keep their inch values',
      demo="""from gerber.primitives import *
c = Circle((3, 0), 1, units='inch')
c.to_metric()
assert abs(c.position[0] - 76.2) < 1e-9, c.position
"""),
 dict(sid='c02_group_once', prop='C02', edits=[(P, """                            if hasattr(value[0], 'to_metric'):
                                for v in value:
                                    v.to_metric()
                            elif isinstance(value[0], tuple):
                                setattr(self, attr,
                                        [tuple(map(metric, point))""", """                            if hasattr(value[0], 'to_metric'):
                                for v in value:
                                    if v.units == value[0].units:
                                        v.to_metric()
                            elif isinstance(value[0], tuple):
                                setattr(self, attr,
                                        [tuple(map(metric, point))""")],
      needs='a region or outline of two or more segments converted to metric',
      breaks='only the first segment is converted: the comparison is made after the first one changed',
      demo="""from gerber.primitives import *
c = Circle((0, 0), 0)
r = Region([Line((0, 0), (1, 0), c, units='inch'), Line((1, 0), (1, 1), Circle((0, 0), 0), units='inch'), Line((1, 1), (0, 0), Circle((0, 0), 0), units='inch')], units='inch')
r.to_metric()
assert abs(r.primitives[1].end[1] - 25.4) < 1e-9, r.primitives[1].end
"""),
 dict(sid='c05_line_offset', prop='C05', edits=[(P, """        self.end = tuple([coord + offset for coord, offset
                          in zip(self.end, (x_offset, y_offset))])

    def equivalent(self, other, offset):

        if not isinstance(other, Line):""", """        if self.end != self.start:
            self.end = tuple([coord + offset for coord, offset
                              in zip(self.end, (x_offset, y_offset))])

    def equivalent(self, other, offset):

        if not isinstance(other, Line):""")],
      needs='a line whose end equals its already moved start', breaks='a line from A to A + offset is not moved at its end',
      demo="""from gerber.primitives import *
l = Line((0, 0), (1, 2), Circle((0, 0), .1))
l.offset(1, 2)
assert l.end == (2, 4), l.end
"""),
 dict(sid='c05_arc_center', prop='C05', edits=[(P, """        self.start = tuple(map(add, self.start, (x_offset, y_offset)))
        self.end = tuple(map(add, self.end, (x_offset, y_offset)))
        self.center = tuple(map(add, self.center, (x_offset, y_offset)))
""", """        self.start = tuple(map(add, self.start, (x_offset, y_offset)))
        self.end = tuple(map(add, self.end, (x_offset, y_offset)))
        if self.quadrant_mode != 'single-quadrant':
            self.center = tuple(map(add, self.center, (x_offset, y_offset)))
""")],
      needs='a single-quadrant arc', breaks='the center of a single-quadrant arc does not move with it',
      demo="""from gerber.primitives import *
a = Arc((1, 0), (0, 1), (0, 0), 'counterclockwise', Circle((0, 0), .1), 'single-quadrant')
a.offset(5, 6)
assert a.center == (5, 6), a.center
"""),
 dict(sid='c06_rotation_stale', prop='C06', edits=[(P, """    @rotation.setter
    def rotation(self, value):
        self._changed()
        self._rotation = value
""", """    @rotation.setter
    def rotation(self, value):
        if value % 90:
            self._changed()
        self._rotation = value
""")],
      needs='read the bounding box, then rotate by a multiple of 90 degrees', breaks='bounding box and vertices keep the old rotation',
      demo="""from gerber.primitives import *
r = Rectangle((0, 0), 4, 2)
r.bounding_box
r.rotation = 90
assert abs(r.bounding_box[0][1] - 1) < 1e-9, r.bounding_box
"""),
 dict(sid='c06_arc_quadrant', prop='C06', edits=[(P, """    def quadrant_mode(self, quadrant_mode):
        self._changed()
""", """    def quadrant_mode(self, quadrant_mode):
        if quadrant_mode == self._quadrant_mode:
            self._changed()
""")],
      needs='read the bounding box of an arc, then change its quadrant mode', breaks='the bounding box of the old quadrant mode stays',
      demo="""from gerber.primitives import *
a = Arc((1, 0), (-1, 0), (0, 0), 'counterclockwise', Circle((0, 0), 0), 'single-quadrant')
a.bounding_box
a.quadrant_mode = 'multi-quadrant'
assert abs(a.bounding_box[1][1] - 1) < 1e-9, a.bounding_box
"""),
 dict(sid='c07_arc_270', prop='C07', edits=[(P, """                    if (((theta1 <= math.pi * 1.5) and (theta0 >= math.pi * 1.5 or theta0 <= theta1))
                        or ((theta0 > math.pi * 1.5) and (theta0 <= theta1))):
                        points.append((self.center[0], self.center[1] - self.radius))
            x, y = zip(*points)
            if""", """                    if (((theta1 <= math.pi * 1.5) and (theta0 >= math.pi * 1.5 or theta0 <= theta1))
                        or ((theta0 > math.pi * 1.5) and (theta0 < theta1) and not self.radius)):
                        points.append((self.center[0], self.center[1] - self.radius))
            x, y = zip(*points)
            if""")],
      needs='a clockwise arc starting and ending in the fourth quadrant and passing 270 degrees', breaks='the lowest point of the arc is left out of the bounding box',
      demo="""from gerber.primitives import *
import math
p = lambda d: (math.cos(math.radians(d)), math.sin(math.radians(d)))
a = Arc(p(280), p(300), (0, 0), 'clockwise', Circle((0, 0), 0), 'multi-quadrant')
assert abs(a.bounding_box[1][0] + 1) < 1e-9, a.bounding_box
"""),
 dict(sid='c07_line_vertices', prop='C07', edits=[(P, """                end_lr = (end[0] + (width / 2.), end[1] - (height / 2.))""", """                end_lr = (end[0] + (width / 2.), end[1] - (width / 2.))""")],
      needs='a line drawn with a rectangular aperture that is not square', breaks='one corner of the stroke is misplaced',
      demo="""from gerber.primitives import *
l = Line((0, 0), (10, 0), Rectangle((0, 0), 1, 4))
assert (10.5, -2.0) in l.vertices, l.vertices
"""),
 dict(sid='c03_thermal_turn', prop='C03', edits=[(A, """        for rotation in [0, 90.0, 180.0, 270.0]:""", """        for rotation in [0, 90.0 - self.rotation, 180.0, 270.0]:""")],
      needs='a thermal with a rotation', breaks='one of the four thermal parts is turned to the wrong place',
      demo="""from gerber.am_statements import *
t = AMThermalPrimitive(7, (0, 0), 2.0, 1.0, 0.2, 30.0)
o = t.to_primitive('inch')
a = o[0].primitives[0].start
b = o[1].primitives[0].start
assert abs(b[0] + a[1]) < 1e-9 and abs(b[1] - a[0]) < 1e-9, (a, b)
"""),
 dict(sid='c03_clear_center_line', prop='C03', edits=[(A, """        if self.exposure == 'off':
            return 'clear'
        return 'dark'""", """        if self.exposure == 'off' and not getattr(self, 'rotation', None):
            return 'clear'
        return 'dark'""")],
      needs='a rotated primitive with exposure off', breaks='rotated primitives with exposure off are drawn dark',
      demo="""from gerber.am_statements import *
c = AMCenterLinePrimitive(21, 'off', 2.0, 1.0, (0, 0), 30.0)
assert c.to_primitive('inch').level_polarity == 'clear'
"""),
 dict(sid='c19_precedence', prop='C19', edits=[('gerber/am_read.py', """                while not empty() and is_op(top()) and precedence(top()) >= precedence(c):""",
      """                while not empty() and is_op(top()) and (precedence(top()) > precedence(c) or top() == c):""")],
      needs='mixed operators of equal precedence, such as a-b+c', breaks='a-b+c is evaluated as a-(b+c)',
      demo="""from gerber.am_read import read_macro
from gerber.am_eval import eval_macro
assert list(eval_macro(read_macro('1,1,$1-$2+$3*'), [5.0, 2.0, 1.0])) == ['1,1.0,4.0']
"""),
 dict(sid='c19_stack_leak', prop='C19', edits=[('gerber/am_eval.py', """            yield "%d,%s" % (argument, ",".join([str(x) for x in stack]))
            stack = []""", """            yield "%d,%s" % (argument, ",".join([str(x) for x in stack]))
            if argument:
                stack = []""")],
      needs='a comment before a primitive', breaks='the text of a comment becomes the first modifier of the next primitive',
      demo="""from gerber.am_read import read_macro
from gerber.am_eval import eval_macro
assert list(eval_macro(read_macro('0 note*1,1,2*')))[1] == '1,1.0,2.0'
"""),
 dict(sid='c20_polygon_fields', prop='C20', edits=[(A, """        try:
            diameter = float(modifiers[5])
        except:
            diameter = 0
        rotation = float(modifiers[6])""", """        try:
            diameter = float(modifiers[5])
        except:
            diameter = 0
        rotation = float(modifiers[6]) % 360""")],
      needs='a polygon with a negative rotation', breaks='the rotation read is not the one written',
      demo="""from gerber.am_statements import *
p = AMPolygonPrimitive.from_gerber('5,1,6,0,0,1,-15*')
assert p.rotation == -15, p.rotation
"""),
 dict(sid='c20_moire_order', prop='C20', edits=[(A, """        fmt = "{code},{position},{diameter},{ring_thickness},{gap},{max_rings},{crosshair_thickness},{crosshair_length},{rotation}*\"""",
      """        fmt = "{code},{position},{diameter},{gap},{ring_thickness},{max_rings},{crosshair_thickness},{crosshair_length},{rotation}*\"""")],
      needs='a moire whose gap differs from its ring thickness', breaks='gap and ring thickness are swapped on writing',
      demo="""from gerber.am_statements import *
m = AMMoirePrimitive(6, (0, 0), 5, 0.5, 0.25, 2, 0.1, 6, 0)
n = AMMoirePrimitive.from_gerber(m.to_gerber())
assert (n.gap, n.ring_thickness) == (0.25, 0.5)
"""),
 dict(sid='c01_zero_coord', prop='C01', edits=[('gerber/gerber_statements.py', """            if self.x is not None:
                self.x = metric(self.x)
            if self.y is not None:
                self.y = metric(self.y)
            if self.i is not None:
                self.i = metric(self.i)
            if self.j is not None:
                self.j = metric(self.j)
            if self.function == "G70":""", """            if self.x is not None:
                self.x = metric(self.x)
            if self.y is not None:
                self.y = metric(self.y)
            if self.i is not None:
                self.i = metric(self.i)
            if self.j is not None and self.i is not None:
                self.j = metric(self.j)
            if self.function == "G70":""")],
      needs='an arc statement with J but without I', breaks='its J offset stays in inches',
      demo="""from gerber.gerber_statements import *
s = CoordStmt('G02', 1.0, 1.0, None, 1.0, 'D01', None)
s.units = 'inch'
s.to_metric()
assert abs(s.j - 25.4) < 1e-9, s.j
"""),
]
SEEDS = [s for s in SEEDS if s['demo']]
