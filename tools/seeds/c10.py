R = 'gerber/rs274x.py'
H = "from gerber.rs274x import loads\n"
SEEDS = [
 dict(sid='c10_include_count', prop='C10', edits=[(R, """                                yield stmt
                            self._recursion_depth -= 1
""", """                                yield stmt
""")], needs='a file with more than ten includes, one after the other', breaks='the includes count as nested and end in IOError',
  demo="""import os, tempfile, shutil
from gerber.rs274x import loads
d = tempfile.mkdtemp()
try:
    with open(os.path.join(d, 'a.gbr'), 'w') as o:
        o.write('X1Y1D02*\\n')
    f = loads('%FSLAX24Y24*%\\n%MOIN*%\\n' + '%IFa.gbr*%\\n' * 12 + 'M02*\\n', os.path.join(d, 'main.gbr'))
    assert len(f.statements) == 15, len(f.statements)
finally:
    shutil.rmtree(d)
"""),
 dict(sid='c10_eof_ends', prop='C10', edits=[(R, """                    yield EofStmt()
                    did_something = True
                    line = r
                    continue
""", """                    yield EofStmt()
                    did_something = True
                    line = ''
                    continue
""")], needs='another command on the line of an end of program code', breaks='the command is dropped',
  demo=H + """f = loads('%FSLAX24Y24*%%MOIN*%\\nM00*X1Y1D02*M02*\\n')
n = [type(s).__name__ for s in f.statements]
g = loads('%FSLAX24Y24*%\\n%MOIN*M00*MOIN*%\\nX1Y1D02*\\nM02*\\n')
m = [type(s).__name__ for s in g.statements]
assert n == ['FSParamStmt', 'MOParamStmt', 'EofStmt', 'CoordStmt', 'EofStmt'], n
h = loads('M00*X1Y1D02*M02*\\n')
assert [type(s).__name__ for s in h.statements] == ['EofStmt', 'CoordStmt', 'EofStmt'], h.statements
"""),
 dict(sid='c10_macro_units', prop='C10', edits=[(R, """        for stmt in self.statements:
            stmt.units = self.settings.units

        return""", """        for stmt in self.statements:
            if not isinstance(stmt, AMParamStmt):
                stmt.units = self.settings.units

        return""")], needs='a macro defined before the units are declared', breaks='the macro statement keeps the default units',
  demo=H + """f = loads('%FSLAX24Y24*%\\n%AMX1*1,1,$1,0,0*%\\n%MOMM*%\\nM02*\\n')
assert [s.units for s in f.statements] == ['metric'] * 4
"""),
 dict(sid='c10_cr', prop='C10', edits=[(R, """            if val == '\\r' or val == '\\n':
                if start != cur:
                    yield data[start:cur]
                start = cur + 1
""", """            if val == '\\n':
                if start != cur:
                    yield data[start:cur]
                start = cur + 1
""")], needs='a file whose lines end in a lone carriage return', breaks='parameters after the first line are lost or joined',
  demo=H + """f = loads('%FSLAX24Y24*%\\r%MOIN*%\\rG04 note*\\rX1Y1D02*\\r%LPC*%\\rX1Y1D02*\\rM02*\\r')
n = [type(s).__name__ for s in f.statements]
assert n == ['FSParamStmt', 'MOParamStmt', 'CommentStmt', 'CoordStmt', 'LPParamStmt', 'CoordStmt', 'EofStmt'], n
"""),
]
