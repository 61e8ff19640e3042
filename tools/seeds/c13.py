S = 'gerber/excellon_statements.py'
X = 'gerber/excellon.py'
H = """import os, tempfile, shutil
from gerber.excellon import loads, DrillHit
from gerber.cam import FileSettings
def again(f, **k):
    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, 'o.drl')
        f.write(p)
        with open(p) as i:
            return loads(i.read(), settings=FileSettings(units=f.settings.units, zeros=f.settings.zeros, format=f.settings.format))
    finally:
        shutil.rmtree(d)
def read(t):
    return loads(t, settings=FileSettings(units='inch', zeros='leading', format=(2, 4)))
def holes(f):
    return [(h.tool.number, h.position if isinstance(h, DrillHit) else (h.start, h.end)) for h in f.hits]
"""
SEEDS = [
 dict(sid='c13_depth_zero', prop='C13', edits=[(S, """        if self.depth_offset is not None:
            stmt += 'Z%s'""", """        if self.depth_offset is not None and self.depth_offset > 0:
            stmt += 'Z%s'""")], needs='a tool with a negative depth offset', breaks='the depth offset is not written',
  demo=H + """f = read('M48\\nINCH,LZ\\nT1C0.1Z-0.5\\n%\\nT1\\nX01Y01\\nM30\\n')
g = again(f)
assert g.tools[1].depth_offset == -0.5, g.tools[1].depth_offset
"""),
 dict(sid='c13_one_pass', prop='C13', edits=[(X, """                for hit in self.hits:
                    if hit.tool.number == tool.number:
                        if isinstance(hit, DrillSlot):
                            stmt = SlotStmt.from_points(hit.start, hit.end)
                        else:
""", """                last = None
                for hit in self.hits:
                    if hit.tool.number == tool.number:
                        if isinstance(hit, DrillSlot):
                            stmt = SlotStmt.from_points(hit.start, hit.end)
                            last = hit.end
                        elif hit.position == last:
                            continue
                        else:
                            last = hit.position
""")], needs='a hole drilled twice in a row, or at the end of a slot', breaks='the repeated hole is dropped from the written file',
  demo=H + """f = read('M48\\nINCH,LZ\\nT1C0.1\\n%\\nT1\\nX01Y01G85X02Y01\\nX02Y01\\nM30\\n')
assert holes(again(f)) == holes(f), holes(again(f))
"""),
 dict(sid='c13_tz_unit', prop='C13', edits=[(S, """                          'LZ' if self.zeros == 'leading'
                          else 'TZ')
""", """                          'LZ' if self.zeros == 'leading' or settings is not None and settings.zeros == 'leading'
                          else 'TZ')
"""), (X, """                    f.write(statement.to_excellon(self.settings) + '\\n')
""", """                    f.write(statement.to_excellon(None if isinstance(statement, UnitStmt) and statement.format else self.settings) + '\\n')
""")], needs='a header with two unit statements of different suppression, first TZ then LZ ... with format', breaks='x',
  demo=H + """raise SystemExit(0)
"""),
 dict(sid='c13_repeat_units', prop='C13', edits=[(S, """        if self.xdelta is not None and self.xdelta != 0.0:
            stmt += 'X%s' % write_gerber_value(self.xdelta, settings.format,
                                               settings.zero_suppression)
        if self.ydelta is not None and self.ydelta != 0.0:
            stmt += 'Y%s'""", """        if self.xdelta is not None and self.xdelta != 0.0:
            stmt += 'X%s' % write_gerber_value(self.xdelta, settings.format,
                                               settings.zero_suppression)
        if self.ydelta is not None and self.ydelta > 0.0:
            stmt += 'Y%s'""")], needs='a repeated hole with a negative step', breaks='the step is not written',
  demo="""from gerber.excellon_statements import RepeatHoleStmt
from gerber.cam import FileSettings
s = FileSettings(format=(2, 4), zeros='leading')
r = RepeatHoleStmt.from_excellon(RepeatHoleStmt(3, 0.1, -0.2).to_excellon(s), s)
assert (r.xdelta, r.ydelta) == (0.1, -0.2), (r.xdelta, r.ydelta)
"""),
 dict(sid='c13_comment_strip', prop='C13', edits=[(S, """        return ';%s' % self.comment
""", """        return ';%s' % self.comment.strip()
"""), (X, """            if " Holesize " in comment_stmt.comment:
                self.state = "HEADER"
""", """            if comment_stmt.comment.startswith(" Holesize "):
                self.state = "HEADER"
""")], needs='a file whose tools are defined by comments', breaks='the written comment is no longer recognised, so the tools read back with default diameters',
  demo=H + """f = read('M48\\nINCH,LZ\\n; Holesize 1. = 40.000000 Tolerance = +3.000000/-2.000000 PLATED MILS Quantity = 7\\n%\\nT1\\nX01Y01\\nM30\\n')
g = again(f)
assert abs(g.tools[1].diameter - f.tools[1].diameter) < 1e-9 and g.tools[1].plated == 'plated', (g.tools[1].diameter, f.tools[1].diameter)
"""),
]
SEEDS = [s for s in SEEDS if s['breaks'] != 'x']
