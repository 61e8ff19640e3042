B = 'gerber/render/rs274x_backend.py'
P = 'gerber/primitives.py'
D = '''from gerber.rs274x import loads
from gerber.cam import FileSettings
from gerber.primitives import *
from gerber.am_statements import *
from gerber.render.rs274x_backend import Rs274xContext


def back(*prims):
    c = Rs274xContext(FileSettings(units='inch', format=(2, 5), zero_suppression='leading'))
    for p in prims:
        c.render(p)
    return loads(c.dump().getvalue()).primitives


C = Circle(None, 0.25)


def line(a, b, ap=C, pol='dark'):
    return Line(a, b, ap, level_polarity=pol)


def arc(a, b, c, way='clockwise', quad='multi-quadrant'):
    return Arc(a, b, c, way, C, quad, level_polarity='dark')


def group(parts, at):
    g = AMGroup(parts, level_polarity='dark', units='inch')
    g.position = at
    return g


'''
SEEDS = [
    dict(sid='c18_arc_mode', prop='C18', edits=[(B, "            func = CoordStmt.FUNC_ARC_CCW\n            self._func = CoordStmt.FUNC_ARC_CCW", "            func = CoordStmt.FUNC_ARC_CCW")],
         needs='a line, a counterclockwise arc from its end, a line from there', breaks='the last line is written without G01 and read as an arc',
         demo=D + "r = back(line((0, 0), (1, 0)), arc((1, 0), (1, 2), (1, 1), 'counterclockwise'), line((1, 2), (3, 3)))\nassert [type(p) for p in r] == [Line, Arc, Line], r\n"),
    dict(sid='c18_hole_key', prop='C18', edits=[(B, "        key = (diameter, hole_diameter, hole_width, hole_height)\n        aper = self._circles.get(key, None)", "        key = (diameter, hole_diameter, hole_width and hole_width * (hole_height or 0))\n        aper = self._circles.get(key, None)"),
                                                (B, "            self._circles[(diameter, hole_diameter, hole_width, hole_height)] = aper", "            self._circles[key] = aper")],
         needs='two circles of one size with rectangular holes of one area, upright and lying', breaks='the second gets the hole of the first',
         demo=D + "r = back(Circle((0, 0), 1, hole_width=0.25, hole_height=0.5, level_polarity='dark'), Circle((1, 0), 1, hole_width=0.5, hole_height=0.25, level_polarity='dark'))\nassert (r[1].hole_width, r[1].hole_height) == (0.5, 0.25)\n"),
    dict(sid='c18_inherit', prop='C18', edits=[(B, "            else:\n                self._render_arc(p, color, default_polarity=region.level_polarity)", "            else:\n                self._render_arc(p, color)")],
         needs='a clear region with an arc of unset polarity', breaks='the region is written half clear and half dark',
         demo=D + "r = back(Region([Line((0, 0), (2, 0), C), Arc((2, 0), (0, 0), (1, 0), 'clockwise', C, 'multi-quadrant')], level_polarity='clear'))\nassert r[0].level_polarity == 'clear' and r[0].primitives[1].level_polarity == 'clear', r[0].level_polarity\n"),
    dict(sid='c18_obround_key', prop='C18', edits=[(B, "        key = (width, height, hole_diameter, hole_width, hole_height)\n        aper = self._obrounds.get(key, None)", "        key = (max(width, height), min(width, height), hole_diameter, hole_width, hole_height)\n        aper = self._obrounds.get(key, None)")],
         needs='an upright and a lying obround of the same two sizes', breaks='the second is written like the first',
         demo=D + "r = back(Obround((0, 0), 1, 2, level_polarity='dark'), Obround((3, 0), 2, 1, level_polarity='dark'))\nassert (r[1].width, r[1].height) == (2, 1)\n"),
    dict(sid='c18_quadrant', prop='C18', edits=[(B, "        if arc.quadrant_mode != self._quadrant_mode:\n", "        if self._quadrant_mode is None or arc.quadrant_mode == 'multi-quadrant' != self._quadrant_mode:\n")],
         needs='a multi quadrant arc before a single quadrant one', breaks='G74 is not written',
         demo=D + "r = back(arc((0, 0), (2, 0), (1, 0)), arc((3, 0), (4, 1), (4, 0), 'clockwise', 'single-quadrant'))\nassert r[1].quadrant_mode == 'single-quadrant'\n"),
    dict(sid='c18_macro_dcode', prop='C18', edits=[(B, "                dcode = self._next_dcode\n                self._next_dcode += 1\n            else:\n                self._next_dcode = max(dcode + 1, self._next_dcode)\n\n            # Create the statements", "                dcode = self._next_dcode\n                self._next_dcode += 1 if not macroinfo else 0\n            else:\n                self._next_dcode = max(dcode + 1, self._next_dcode)\n\n            # Create the statements")],
         needs='two macros whose names collide, and a further aperture', breaks='two apertures get the same number',
         demo=D + "o = lambda *p: AMOutlinePrimitive(4, 'on', p[-1], list(p), 0.0)\nr = back(group([o((0.5, 0.0), (0.0, 0.5), (-0.5, 0.0), (0.0, -0.5))], (0, 0)), group([o((0.5, 0.5), (0.0, 0.0), (-0.5, 0.5), (0.0, -0.5))], (3, 0)), Circle((9, 9), 0.5, level_polarity='dark'))\nassert [type(p) for p in r] == [AMGroup, AMGroup, Circle], r\n"),
    dict(sid='c18_outline_equal', prop='C18', edits=[(P, "        for i in range(0, len(self.primitives)):\n            if not self.primitives[i].equivalent(other.primitives[i], offset):\n                return False\n\n        return True", "        for i in range(0, len(self.primitives), 2):\n            if not nearly_equal(self.primitives[i].start, tuple(map(add, other.primitives[i].start, offset))):\n                return False\n\n        return True")],
         needs='flashes of two macros, outlines of four corners that share two opposite corners', breaks='the second is written with the first macro',
         demo=D + "o = lambda *p: AMOutlinePrimitive(4, 'on', p[-1], list(p), 0.0)\nr = back(group([o((0.5, 0.0), (0.0, 0.5), (-0.5, 0.0), (0.0, -0.5))], (0, 0)), group([o((0.5, 0.25), (0.0, 0.5), (-0.5, 0.25), (0.0, -0.5))], (0, 0)))\nassert r[1].primitives[0].primitives[0].end == (0.5, 0.25), r[1].primitives[0].primitives\n"),
    dict(sid='c18_long_flash', prop='C18', edits=[(B, "            self.body.append(CoordStmt.flash(None))\n\n        self._pos = primitive.position", "            self.body.append(CoordStmt.flash(None))\n            return\n\n        self._pos = primitive.position")],
         needs='condensed_flash off; a flash away from the current point, then a line from the former current point', breaks='the line starts at the flash',
         demo=D + "c = Rs274xContext(FileSettings(units='inch', format=(2, 5), zero_suppression='leading'))\nc.condensed_flash = False\nfor p in (line((0, 0), (1, 0)), Circle((5, 5), 0.5, level_polarity='dark'), line((1, 0), (1, 1))):\n    c.render(p)\nr = loads(c.dump().getvalue()).primitives\nassert r[2].start == (1, 0), r[2]\n"),
    dict(sid='c18_repeat_move', prop='C18', edits=[(B, "        if self._pos != arc.start:", "        if None in self._pos or abs(self._pos[0] - arc.start[0]) + abs(self._pos[1] - arc.start[1]) > 0.001:")],
         needs='an arc that starts less than a thousandth from the current point', breaks='it is drawn from the current point',
         demo=D + "r = back(line((0, 0), (1, 0)), arc((1.0005, 0), (2, 1), (2, 0)))\nassert abs(r[1].start[0] - 1.0005) < 1e-9, r[1].start\n"),
]
