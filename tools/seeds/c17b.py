C = 'gerber/render/cairo_backend.py'
IMG = '''import os, shutil, tempfile
from gerber.render.cairo_backend import GerberCairoContext
from gerber.layers import PCBLayer
from gerber import loads
GBR = '%FSLAX24Y24*%\\n%MOIN*%\\n%ADD10C,0.1*%\\nD10*\\nX0Y0D03*\\nX10000Y5000D03*\\nM02*\\n'


def context(n=1):
    c = GerberCairoContext()
    for k in range(n):
        c.render_layer(PCBLayer.from_cam(loads(GBR, 'b.gtl')))
    return c


'''
SEEDS = [
 dict(sid='c17_svg_seek', prop='C17', edits=[(C, """                self.surface_buffer.seek(0)
                f.write(self.surface_buffer.read())""", """                if self._render_count < 2:
                    self.surface_buffer.seek(0)
                f.write(self.surface_buffer.read())""")], needs='an image of two layers or more saved as SVG', breaks='SVG files of images of several layers are empty',
  demo=IMG + """d = tempfile.mkdtemp()
try:
    context(2).dump(d + '/a.svg')
    assert os.path.getsize(d + '/a.svg') > 100
finally:
    shutil.rmtree(d)
"""),
 dict(sid='c17_dump_str_svg', prop='C17', edits=[(C, """        fobj = BytesIO()
        self.surface.write_to_png(fobj)
        return fobj.getvalue()""", """        fobj = BytesIO()
        self.surface.write_to_png(fobj)
        fobj.seek(0 if self._render_count > 1 else 8)
        return fobj.read()""")], needs='dump_str of an image of a single layer', breaks='the PNG lacks its signature',
  demo=IMG + """assert context().dump_str()[:4] == b'\\x89PNG'
"""),
]
