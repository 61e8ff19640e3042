"""Recording model of the cairo drawing library, interpreted by the analysis
in place of the real one: paths and painting operations in device space."""

FORMAT_ARGB32 = 'argb32'
FORMAT_RGB24 = 'rgb24'
OPERATOR_CLEAR = 'clear'
OPERATOR_SOURCE = 'source'
OPERATOR_OVER = 'over'
OPERATOR_IN = 'in'
OPERATOR_OUT = 'out'
OPERATOR_ATOP = 'atop'
OPERATOR_DEST = 'dest'
OPERATOR_DEST_OVER = 'dest_over'
OPERATOR_DEST_IN = 'dest_in'
OPERATOR_DEST_OUT = 'dest_out'
OPERATOR_DEST_ATOP = 'dest_atop'
OPERATOR_XOR = 'xor'
OPERATOR_ADD = 'add'
LINE_CAP_BUTT = 'butt'
LINE_CAP_ROUND = 'round'
LINE_CAP_SQUARE = 'square'
LINE_JOIN_MITER = 'miter'
LINE_JOIN_ROUND = 'round'
LINE_JOIN_BEVEL = 'bevel'
FILL_RULE_WINDING = 'winding'
FILL_RULE_EVEN_ODD = 'even_odd'
ANTIALIAS_DEFAULT = 'default'
ANTIALIAS_NONE = 'none'
ANTIALIAS_GRAY = 'gray'
ANTIALIAS_SUBPIXEL = 'subpixel'
FONT_SLANT_NORMAL = 'normal'
FONT_SLANT_ITALIC = 'italic'
FONT_SLANT_OBLIQUE = 'oblique'
FONT_WEIGHT_NORMAL = 'normal'
FONT_WEIGHT_BOLD = 'bold'
CONTENT_COLOR = 'color'
CONTENT_ALPHA = 'alpha'
CONTENT_COLOR_ALPHA = 'color_alpha'


class Matrix(object):
    def __init__(self, xx=1.0, yx=0.0, xy=0.0, yy=1.0, x0=0.0, y0=0.0):
        self.xx = xx
        self.yx = yx
        self.xy = xy
        self.yy = yy
        self.x0 = x0
        self.y0 = y0

    def translate(self, tx, ty):
        self.x0 = self.xx * tx + self.xy * ty + self.x0
        self.y0 = self.yx * tx + self.yy * ty + self.y0

    def scale(self, sx, sy=None):
        sy = sx if sy is None else sy
        self.xx = self.xx * sx
        self.yx = self.yx * sx
        self.xy = self.xy * sy
        self.yy = self.yy * sy

    def transform_point(self, x, y):
        return (self.xx * x + self.xy * y + self.x0, self.yx * x + self.yy * y + self.y0)

    def multiply(self, other):
        return Matrix(self.xx * other.xx + self.yx * other.xy, self.xx * other.yx + self.yx * other.yy,
                      self.xy * other.xx + self.yy * other.xy, self.xy * other.yx + self.yy * other.yy,
                      self.x0 * other.xx + self.y0 * other.xy + other.x0, self.x0 * other.yx + self.y0 * other.yy + other.y0)

    def __mul__(self, other):
        return self.multiply(other)

    def as_tuple(self):
        return (self.xx, self.yx, self.xy, self.yy, self.x0, self.y0)

    def copy(self):
        return Matrix(self.xx, self.yx, self.xy, self.yy, self.x0, self.y0)


class Surface(object):
    def __init__(self, kind, target, width, height):
        self.kind = kind
        self.target = target
        self.width = width
        self.height = height
        self.ops = []
        self.finished = False
        self.written = []

    def finish(self):
        if not self.finished and self.kind != 'image' and hasattr(self.target, 'write'):
            self.target.write('%s of %d operations' % (self.kind, len(self.ops)))
        self.finished = True

    def flush(self):
        pass

    def get_width(self):
        return self.width

    def get_height(self):
        return self.height

    def write_to_png(self, target=None):
        text = 'png of %d operations' % len(self.ops)
        if hasattr(target, 'write'):
            target.write(text)
            return None
        self.written.append(target)
        return text if target is None else None

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        self.finish()


class SVGSurface(Surface):
    def __init__(self, fobj, width_in_points, height_in_points):
        Surface.__init__(self, 'svg', fobj, width_in_points, height_in_points)


class PDFSurface(Surface):
    def __init__(self, fobj, width_in_points, height_in_points):
        Surface.__init__(self, 'pdf', fobj, width_in_points, height_in_points)


class ImageSurface(Surface):
    def __init__(self, format, width, height):
        Surface.__init__(self, 'image', None, width, height)


class Context(object):
    def __init__(self, target):
        self.surface = target
        self.matrix = Matrix()
        self.operator = OPERATOR_OVER
        self.source = ('rgba', 0.0, 0.0, 0.0, 1.0)
        self.line_width = 2.0
        self.line_cap = LINE_CAP_BUTT
        self.fill_rule = FILL_RULE_WINDING
        self.path = []
        self.clips = []
        self.saved = []
        self.font = None
        self.font_size = 10.0

    # state
    def save(self):
        self.saved.append((self.matrix.copy(), self.operator, self.source, self.line_width, self.line_cap, self.fill_rule, list(self.clips)))

    def restore(self):
        self.matrix, self.operator, self.source, self.line_width, self.line_cap, self.fill_rule, self.clips = self.saved.pop()

    def get_target(self):
        return self.surface

    def set_operator(self, op):
        self.operator = op

    def get_operator(self):
        return self.operator

    def set_source_rgba(self, red, green, blue, alpha=1.0):
        self.source = ('rgba', red, green, blue, alpha)

    def set_source_rgb(self, red, green, blue):
        self.source = ('rgba', red, green, blue, 1.0)

    def set_line_width(self, width):
        self.line_width = width

    def set_line_cap(self, cap):
        self.line_cap = cap

    def set_line_join(self, join):
        pass

    def set_antialias(self, mode):
        pass

    def set_tolerance(self, t):
        pass

    def set_fill_rule(self, rule):
        self.fill_rule = rule

    # transformations
    def set_matrix(self, m):
        self.matrix = m.copy()

    def get_matrix(self):
        return self.matrix.copy()

    def identity_matrix(self):
        self.matrix = Matrix()

    def transform(self, m):
        self.matrix = m.multiply(self.matrix)

    def translate(self, tx, ty):
        self.matrix.translate(tx, ty)

    def scale(self, sx, sy=None):
        self.matrix.scale(sx, sy)

    # paths, kept in device space
    def new_path(self):
        self.path = []

    def new_sub_path(self):
        self.path.append(('N',))

    def move_to(self, x, y):
        self.path.append(('M', self.matrix.transform_point(x, y)))

    def line_to(self, x, y):
        self.path.append(('L', self.matrix.transform_point(x, y)))

    def close_path(self):
        self.path.append(('Z',))

    def rectangle(self, x, y, width, height):
        self.move_to(x, y)
        self.line_to(x + width, y)
        self.line_to(x + width, y + height)
        self.line_to(x, y + height)
        self.close_path()

    def arc(self, xc, yc, radius, angle1, angle2):
        m = self.matrix
        self.path.append(('A', m.transform_point(xc, yc), radius, angle1, angle2, 'ccw', (m.xx, m.yx, m.xy, m.yy)))

    def arc_negative(self, xc, yc, radius, angle1, angle2):
        m = self.matrix
        self.path.append(('A', m.transform_point(xc, yc), radius, angle1, angle2, 'cw', (m.xx, m.yx, m.xy, m.yy)))

    # clipping
    def clip(self):
        self.clip_preserve()
        self.path = []

    def clip_preserve(self):
        self.clips.append(tuple(self.path))

    def reset_clip(self):
        self.clips = []

    # painting
    def _op(self, *what):
        self.surface.ops.append((self.operator, self.source, tuple(self.clips)) + what)

    def fill(self):
        self.fill_preserve()
        self.path = []

    def fill_preserve(self):
        self._op('fill', tuple(self.path), self.fill_rule)

    def stroke(self):
        self.stroke_preserve()
        self.path = []

    def stroke_preserve(self):
        m = self.matrix
        self._op('stroke', tuple(self.path), self.line_width, self.line_cap, (m.xx, m.yx, m.xy, m.yy))

    def paint(self):
        self._op('paint', 1.0)

    def paint_with_alpha(self, alpha):
        self._op('paint', alpha)

    def mask_surface(self, surface, x=0, y=0):
        m = self.matrix
        self._op('mask', surface, (m.xx, m.yx, m.xy, m.yy), m.transform_point(x, y))

    def set_source_surface(self, surface, x=0, y=0):
        m = self.matrix
        self.source = ('surface', surface, (m.xx, m.yx, m.xy, m.yy), m.transform_point(x, y))

    # text
    def select_font_face(self, family='', slant=FONT_SLANT_NORMAL, weight=FONT_WEIGHT_NORMAL):
        self.font = (family, slant, weight)

    def set_font_size(self, size):
        self.font_size = size

    def show_text(self, text):
        m = self.matrix
        self._op('text', text, tuple(self.path), (m.xx, m.yx, m.xy, m.yy))
