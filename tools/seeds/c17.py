B = 'gerber/render/cairo_backend.py'
R = 'gerber/render/render.py'
M = 'gerber/cam.py'
PNG = '''import zlib, struct
from gerber.rs274x import loads
from gerber.render.cairo_backend import GerberCairoContext
from gerber.render.render import RenderSettings
from gerber.layers import PCBLayer
from gerber.primitives import *


def png(b):
    i, d = 8, b''
    while i < len(b):
        n, = struct.unpack('>I', b[i:i + 4])
        t = b[i + 4:i + 8]
        if t == b'IHDR':
            w, h, bd, ct = struct.unpack('>IIBB', b[i + 8:i + 18])
        if t == b'IDAT':
            d += b[i + 8:i + 8 + n]
        i += 12 + n
    d = zlib.decompress(d)
    bpp = {2: 3, 6: 4}[ct]
    st, rows, prev, k = w * bpp, [], bytearray(w * bpp), 0
    for y in range(h):
        f, row = d[k], bytearray(d[k + 1:k + 1 + st])
        k += 1 + st
        for x in range(st):
            a = row[x - bpp] if x >= bpp else 0
            u, c = prev[x], prev[x - bpp] if x >= bpp else 0
            if f == 1: row[x] = (row[x] + a) & 255
            elif f == 2: row[x] = (row[x] + u) & 255
            elif f == 3: row[x] = (row[x] + (a + u) // 2) & 255
            elif f == 4:
                p = a + u - c
                row[x] = (row[x] + min((abs(p - a), 0, a), (abs(p - u), 1, u), (abs(p - c), 2, c))[2]) & 255
        rows.append([tuple(row[j * bpp:j * bpp + bpp]) for j in range(w)])
        prev = row
    return rows


class Board(object):
    def __init__(self, bounds, prims):
        self.bounds, self.primitives, self.filename = bounds, prims, 'x'


def draw(bounds, *layers, **kw):
    """layers: (primitives, settings).  Returns value(x, y) in 0..255 of red."""
    c = kw.get('ctx') or GerberCairoContext(scale=20)
    for prims, s in layers:
        c.render_layer(PCBLayer('x', 'top', Board(bounds, prims)), settings=s, bgsettings=RenderSettings((0, 0, 0)))
    rows = png(c.dump_str())
    (x0, x1), (y0, y1) = bounds
    return lambda x, y: rows[int((y1 - y) * 20)][int((x - x0) * 20)][0]


WHITE = (1.0, 1.0, 1.0)
'''
SEEDS = [
 dict(sid='c17_mirror_origin', prop='C17', edits=[(B, "            matrix.x0 = self.origin_in_pixels[0] + self.size_in_pixels[0]", "            matrix.x0 = self.size_in_pixels[0]")],
  needs='a mirrored layer whose bounds do not start at x = 0', breaks='the mirrored layer is shifted',
  demo=PNG + """v = draw(((1, 5), (0, 2)), ([Circle((1.5, 1), .8)], RenderSettings(WHITE, mirror=True)))
assert v(4.5, 1) > 200 and v(1.5, 1) < 50, (v(4.5, 1), v(1.5, 1))
"""),
 dict(sid='c17_alpha_zero', prop='C17', edits=[(B, "        alpha = alpha if alpha is not None else self.alpha", "        alpha = alpha or self.alpha")],
  needs='a layer with alpha 0', breaks='the layer is drawn fully opaque',
  demo=PNG + """v = draw(((0, 2), (0, 2)), ([Circle((1, 1), 1)], RenderSettings(WHITE, alpha=0.0)))
assert v(1, 1) < 10, v(1, 1)
"""),
 dict(sid='c17_count_kept', prop='C17', edits=[(B, """        self._xform_matrix = None
        self._render_count = 0
        self.surface_buffer = None
""", """        self._xform_matrix = None
        self.surface_buffer = None
""")], needs='a context cleared between two boards', breaks='the second board is not drawn (no surface is made)',
  demo=PNG + """c = GerberCairoContext(scale=20)
draw(((0, 2), (0, 2)), ([Circle((1, 1), 1)], RenderSettings(WHITE)), ctx=c)
c.clear()
v = draw(((0, 3), (0, 2)), ([Circle((1, 1), 1)], RenderSettings(WHITE)), ctx=c)
assert v(1, 1) > 200
"""),
 dict(sid='c17_bounds_replaced', prop='C17', edits=[(B, "        self.size_in_inch = size_in_inch if self.size_in_inch is None else self.size_in_inch", "        self.size_in_inch = size_in_inch if self.size_in_inch is None or size_in_inch > self.size_in_inch else self.size_in_inch")],
  needs='a second, larger file rendered onto the same context', breaks='the second file is shifted up',
  demo=PNG + """from gerber.cam import CamFile
class F(CamFile):
    bounding_box = None
def f(box, p):
    a = F(primitives=p)
    a.bounding_box = box
    return a
c = GerberCairoContext(scale=20)
c.color = WHITE
f(((0, 4), (0, 4)), []).render(c)
f(((0, 5), (0, 6)), [Circle((1, 1), 1)]).render(c)
rows = png(c.dump_str())
assert rows[60][20][0] > 200, rows[60][20]
"""),
 dict(sid='c17_slot_cap', prop='C17', edits=[(B, """                mask.ctx.set_line_width(width * self.scale[0])
                mask.ctx.set_line_cap(cairo.LINE_CAP_ROUND)
                mask.ctx.move_to(*start)
                mask.ctx.line_to(*end)
                mask.ctx.stroke()
                self.ctx""", """                mask.ctx.set_line_width(width * self.scale[0])
                if slot.start != slot.end:
                    mask.ctx.set_line_cap(cairo.LINE_CAP_ROUND)
                mask.ctx.move_to(*start)
                mask.ctx.line_to(*end)
                mask.ctx.stroke()
                self.ctx""")], needs='a slot that starts and ends at one place', breaks='the hole is not drawn',
  demo=PNG + """v = draw(((0, 2), (0, 2)), ([Slot((1, 1), (1, 1), 1)], RenderSettings(WHITE)))
assert v(1, 1) > 200, v(1, 1)
"""),
 dict(sid='c17_hole_turn', prop='C17', edits=[(B, """                    lower_left = rotate_point((center[0] - width/2.0, center[1] - height/2.0), rectangle.rotation, center)
                    lower_right = rotate_point((center[0] + width/2.0, center[1] - height/2.0), rectangle.rotation, center)""",
  """                    lower_left = rotate_point((center[0] - width/2.0, center[1] - height/2.0), rectangle.rotation % 90, center)
                    lower_right = rotate_point((center[0] + width/2.0, center[1] - height/2.0), rectangle.rotation, center)""")],
  needs='a rectangle turned by 90 degrees or more with a rectangular hole', breaks='the hole is deformed',
  demo=PNG + """v = draw(((0, 4), (0, 4)), ([Rectangle((2, 2), 3, 3, hole_width=2, hole_height=.5, rotation=90)], RenderSettings(WHITE)))
assert v(2.1, 2.8) < 50 and v(2.1, 1.2) < 50 and v(1.9, 2.8) < 50 and v(1.9, 1.2) < 50, 'hole'
"""),
 dict(sid='c17_background_alpha', prop='C17', edits=[(B, "            self.output_ctx.paint()\n\n    def _clip", "            self.output_ctx.paint_with_alpha(alpha)\n\n    def _clip")],
  needs='a background with alpha below 1', breaks='the alpha of the background counts twice',
  demo=PNG + """c = GerberCairoContext(scale=20)
c.render_layer(PCBLayer('x', 'top', Board(((0, 1), (0, 1)), [])), settings=RenderSettings(WHITE), bgsettings=RenderSettings(WHITE, alpha=.5))
a = png(c.dump_str())[5][5]
assert abs(a[-1] - 128) < 5, a
"""),
 dict(sid='c16_outline_skipped', prop='C16', edits=[(R, "        elif isinstance(primitive, Outline):", "        elif isinstance(primitive, Outline) and primitive.level_polarity == 'dark':")],
  needs='an outline with clear polarity', breaks='the outline is not drawn',
  demo="""from gerber.render.render import GerberContext
from gerber.primitives import *
seen = []
class C(GerberContext):
    def _render_region(self, p, color):
        seen.append(p)
ap = Circle((0, 0), 0)
o = Outline([Line((0, 0), (1, 0), ap), Line((1, 0), (0, 1), ap), Line((0, 1), (0, 0), ap)], level_polarity='clear')
C().render(o)
assert seen == [o]
"""),
 dict(sid='c16_invert_kept', prop='C16', edits=[(M, "        ctx.invert = invert\n", "        ctx.invert = ctx.invert or invert\n")],
  needs='a file rendered after an inverted one', breaks='the file is rendered inverted',
  demo="""from gerber.render.render import GerberContext
from gerber.cam import CamFile
class C(GerberContext):
    def new_render_layer(self):
        self.seen = self.invert
c = C()
CamFile(primitives=[]).render(c, invert=True)
CamFile(primitives=[]).render(c)
assert c.seen is False
"""),
 dict(sid='c16_color_last', prop='C16', edits=[(R, """            raise TypeError('Drill color must be a tuple of R, G, and B values')
        for c in color:""", """            raise TypeError('Drill color must be a tuple of R, G, and B values')
        for c in color[:2]:""")], needs='a drill color with an invalid blue channel', breaks='the color is accepted',
  demo="""from gerber.render.render import GerberContext
c = GerberContext()
try:
    c.drill_color = (0, 0, 1.5)
    raise SystemExit('accepted')
except ValueError:
    pass
"""),
]
