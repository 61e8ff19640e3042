G = 'gerber/gerber_statements.py'
R = 'gerber/rs274x.py'
H = """import os, tempfile, shutil
from gerber.rs274x import loads
from gerber.cam import FileSettings
from gerber.gerber_statements import *
def again(f, settings=None):
    d = tempfile.mkdtemp()
    try:
        f.write(os.path.join(d, 'o.gbr'), settings)
        with open(os.path.join(d, 'o.gbr')) as i:
            return loads(i.read())
    finally:
        shutil.rmtree(d)
"""
SEEDS = [
 dict(sid='c11_fs_format', prop='C11', edits=[(G, """            notation = 'A' if settings.notation == 'absolute' else 'I'
            fmt = ''.join(map(str, settings.format))
""", """            notation = 'A' if settings.notation == 'absolute' else 'I'
            fmt = ''.join(map(str, self.format))
""")], needs='writing with settings of another number format than the file was read with', breaks='the format statement declares the old format, so all coordinates are read back scaled',
  demo=H + """f = loads('%FSLAX24Y24*%\\n%MOIN*%\\nX15000Y20000D02*\\nM02*\\n')
g = again(f, FileSettings(format=(3, 5), zero_suppression='leading'))
assert (g.statements[2].x, g.statements[2].y) == (1.5, 2.0), g.statements[2]
"""),
 dict(sid='c11_zero_j', prop='C11', edits=[(G, """        if self.j is not None:
            ret += 'J{0}'.format(write""", """        if self.j is not None and (self.j or self.i is None):
            ret += 'J{0}'.format(write""")], needs='an arc whose second offset is zero', breaks='the zero offset is left out',
  demo=H + """f = loads('%FSLAX24Y24*%\\n%MOIN*%\\n%ADD10C,0.1*%\\nD10*\\nX0Y0D02*\\nG75*\\nG02X20000Y0I10000J0D01*\\nM02*\\n')
g = again(f)
assert [s.j for s in g.statements if isinstance(s, CoordStmt)] == [None, 0.0]
"""),
 dict(sid='c11_hole_rect', prop='C11', edits=[(G, """            return cls('AD', dcode, 'O', ([width, height, hole_width, hole_height],))
""", """            return cls('AD', dcode, 'O', ([width, height, hole_width] if hole_width == hole_height else [width, height, hole_width, hole_height],))
""")], needs='an obround built with a square hole', breaks='the hole reads back as round',
  demo=H + """from gerber.rs274x import GerberFile
st = FileSettings(format=(2, 4), zero_suppression='leading')
f = GerberFile([FSParamStmt.from_settings(st), MOParamStmt.from_units('inch'), ADParamStmt.obround(10, .5, .4, hole_width=.1, hole_height=.1), EofStmt()], st, [], [])
g = again(f)
assert g.statements[2].modifiers == [(.5, .4, .1, .1)], g.statements[2].modifiers
"""),
 dict(sid='c11_write_settings', prop='C11', edits=[(R, """            for statement in self.statements:
                f.write(statement.to_gerber(settings or self.settings))
""", """            for statement in self.statements:
                if isinstance(statement, FSParamStmt):
                    f.write(statement.to_gerber(settings))
                    f.write("\\n")
                    continue
                f.write(statement.to_gerber(settings or self.settings))
""")], needs='a file with two format statements', breaks='coordinates are written in the last format, the format statements keep their own',
  demo=H + """f = loads('%FSLAX24Y24*%\\n%MOIN*%\\nX15000Y20000D02*\\n%FSLAX25Y25*%\\nX150000Y200000D02*\\nM02*\\n')
g = again(f)
assert [s.x for s in g.statements if isinstance(s, CoordStmt)] == [1.5, 1.5], [s.x for s in g.statements if isinstance(s, CoordStmt)]
"""),
]
