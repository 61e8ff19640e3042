R = 'gerber/rs274x.py'
H = "from gerber.rs274x import loads\nf = loads('''%FSLAX24Y24*%\n%MOIN*%\n%ADD10C,0.1*%\nD10*\n"
SEEDS = [
 dict(sid='c09_flash_op', prop='C09', edits=[(R, """        if stmt.op:
            self.op = stmt.op
        else:
            # no implicit""", """        if stmt.op:
            self.op = stmt.op
        elif self.op in ("D03", "D3") and stmt.function:
            stmt.op = self.op = "D02"
        else:
            # no implicit""")], needs='a block with a G01 but no operation after a flash', breaks='the flash is not repeated, the block is taken as a move',
  demo=H + """X0Y0D03*
G01X10000Y0*
M02*
''')
assert len(f.primitives) == 2, f.primitives
"""),
 dict(sid='c09_region_units', prop='C09', edits=[(R, """                    self.primitives.append(Region(self.current_region,
                                                  level_polarity=self.level_polarity,
                                                  units=self.settings.units))
                self.current_region = None
""", """                    self.primitives.append(Region(self.current_region,
                                                  level_polarity=self.level_polarity))
                self.current_region = None
""")], needs='a region of two contours', breaks='the first contour has no units, so it is never converted',
  demo=H + """G36*
X0Y0D02*
X10000Y0D01*
X10000Y10000D01*
X0Y0D01*
X30000Y30000D02*
X40000Y30000D01*
X40000Y40000D01*
X30000Y30000D01*
G37*
M02*
''')
assert [p.units for p in f.primitives] == ['inch', 'inch'], f.primitives
"""),
 dict(sid='c09_quad_cw', prop='C09', edits=[(R, """                    sweep_angle = abs(theta0 - theta1) % two_pi
""", """                    sweep_angle = abs(theta0 - theta1) % math.pi
""")], needs='a clockwise single quadrant arc whose mirrored center fits the radius exactly', breaks='a center for which the arc would sweep more than half a turn is accepted',
  demo="""import math
from gerber.rs274x import loads
for a in range(0, 360, 15):
    for w in (30, 60, 90):
        P = lambda t: (round(5 + 2 * math.cos(math.radians(t)), 6), round(5 + 2 * math.sin(math.radians(t)), 6))
        s, e = P(a), P(a - w)
        n = lambda v: '%d' % round(v * 1e6)
        f = loads('%%FSLAX46Y46*%%\\n%%MOIN*%%\\n%%ADD10C,0.1*%%\\nD10*\\nG74*\\nX%sY%sD02*\\nG02X%sY%sI%sJ%sD01*\\nM02*\\n' % (n(s[0]), n(s[1]), n(e[0]), n(e[1]), n(abs(5 - s[0])), n(abs(5 - s[1]))))
        c = f.primitives[0].center
        assert abs(c[0] - 5) < 1e-3 and abs(c[1] - 5) < 1e-3, (a, w, c)
"""),
 dict(sid='c09_obround_hole', prop='C09', edits=[(R, """            rectangular_hole = (0, 0)
            if len(modifiers[0]) == 3:
                hole_diameter = modifiers[0][2]
            elif len(modifiers[0]) == 4:
                rectangular_hole = modifiers[0][2:4]

            aperture = Obround(""", """            rectangular_hole = (0, 0)
            if len(modifiers[0]) == 3:
                hole_diameter = modifiers[0][2]
            elif len(modifiers[0]) == 4:
                rectangular_hole = modifiers[0][:1:-1]

            aperture = Obround(""")], needs='an obround aperture with a rectangular hole that is not square', breaks='width and height of the hole are swapped',
  demo="""from gerber.rs274x import loads
f = loads('''%FSLAX24Y24*%
%MOIN*%
%ADD10O,0.5X0.4X0.2X0.1*%
D10*
X0Y0D03*
M02*
''')
assert (f.primitives[0].hole_width, f.primitives[0].hole_height) == (.2, .1)
"""),
]
