"""Objects the checks hand to the analysed code."""
from gerber.cam import CamFile
from gerber.render.render import GerberContext


class Cam(object):
    """A file with given bounds and primitives."""

    def __init__(self, bounds, primitives, filename=None):
        self.bounds = bounds
        self.bounding_box = bounds
        self.primitives = primitives
        self.filename = filename


class Shape(object):
    """A part of a macro, already a primitive."""

    def __init__(self, primitive):
        self.primitive = primitive

    def to_primitive(self, units=None):
        return self.primitive


class Board(CamFile):
    """A file of the package with given bounds and primitives."""

    def __init__(self, bounds, primitives, filename=None):
        CamFile.__init__(self, primitives=primitives, filename=filename)
        self._bounds = bounds

    @property
    def bounds(self):
        return self._bounds

    @property
    def bounding_box(self):
        return self._bounds


class Recorder(GerberContext):
    """A rendering context that records what it is asked to draw."""

    def __init__(self):
        GerberContext.__init__(self)
        self.calls = []

    def _log(self, *what):
        self.calls.append(what)

    def set_bounds(self, bounds, *args, **kwargs):
        self._log('set_bounds', bounds)

    def paint_background(self, *args, **kwargs):
        self._log('paint_background')

    def new_render_layer(self, *args, **kwargs):
        self._log('new_render_layer', self.invert)

    def flatten(self, *args, **kwargs):
        self._log('flatten')

    def dump(self, filename=None, *args, **kwargs):
        self._log('dump', filename)

    def pre_render_primitive(self, primitive):
        self._log('pre', primitive)

    def post_render_primitive(self, primitive):
        self._log('post', primitive)

    def _render_line(self, primitive, color):
        self._log('line', primitive, color)

    def _render_arc(self, primitive, color):
        self._log('arc', primitive, color)

    def _render_region(self, primitive, color):
        self._log('region', primitive, color)

    def _render_circle(self, primitive, color):
        self._log('circle', primitive, color)

    def _render_rectangle(self, primitive, color):
        self._log('rectangle', primitive, color)

    def _render_obround(self, primitive, color):
        self._log('obround', primitive, color)

    def _render_polygon(self, primitive, color):
        self._log('polygon', primitive, color)

    def _render_drill(self, primitive, color):
        self._log('drill', primitive, color)

    def _render_slot(self, primitive, color):
        self._log('slot', primitive, color)

    def _render_amgroup(self, primitive, color):
        self._log('amgroup', primitive, color)

    def _render_test_record(self, primitive, color):
        self._log('test_record', primitive, color)
