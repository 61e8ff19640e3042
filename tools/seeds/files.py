R = 'gerber/rs274x.py'
X = 'gerber/excellon.py'
U = 'gerber/utils.py'
O = 'gerber/operations.py'
SEEDS = [
 dict(sid='c04_unused_tool', prop='C04', edits=[(X, """                statement.to_metric()
            for tool in iter(self.tools.values()):
                tool.to_metric()
""", """                statement.to_metric()
            for tool in [t for t in self.tools.values() if t.diameter is None or any(h.tool.number == t.number for h in self.hits) or not self.hits[1:]]:
                tool.to_metric()
""")], needs='a drill file with a tool that no hit uses and that is not among the statements, converted to metric', breaks='the unused tool keeps its inch diameter',
  demo="""from gerber.excellon import *
from gerber.excellon_statements import *
s = FileSettings(units='inch', format=(2, 4), zeros='leading')
t = ExcellonTool(s, number=1, diameter=.1)
u = ExcellonTool(s, number=2, diameter=.2)
f = ExcellonFile([], {1: t, 2: u}, [DrillHit(u, (0, 0)), DrillHit(u, (1, 0))], s)
f.to_metric()
assert abs(f.tools[1].diameter - 2.54) < 1e-9, f.tools[1].diameter
"""),
 dict(sid='c04_offset_once', prop='C04', edits=[(R, """        for primitive in self.primitives:
            primitive.offset(x_offset, y_offset)
""", """        for i, primitive in enumerate(self.primitives):
            if primitive not in self.primitives[:i] and (x_offset and y_offset or primitive.flashed):
                primitive.offset(x_offset, y_offset)
            elif primitive not in self.primitives[:i]:
                primitive.offset(x_offset or 0, x_offset and y_offset)
""")], needs='a file with a drawn line translated along y only', breaks='strokes are not moved when the x offset is 0',
  demo="""from gerber.rs274x import loads
f = loads('''%FSLAX24Y24*%
%MOIN*%
%ADD10C,0.1*%
D10*
X0Y0D02*
X10000Y0D01*
M02*
''')
f.offset(0, 2)
assert f.primitives[0].start == (0, 2), f.primitives[0].start
"""),
 dict(sid='c08_same_units', prop='C08', edits=[(O, """    cam_file = copy.deepcopy(cam_file)
    cam_file.to_metric()
""", """    if cam_file.units == 'inch':
        cam_file = copy.deepcopy(cam_file)
        cam_file.to_metric()
""")], needs='to_metric() of a file already in metric, then a change of the result', breaks='the result is the source itself, so later changes reach the source',
  demo="""from gerber.rs274x import loads
from gerber.operations import to_metric
f = loads('''%FSLAX24Y24*%
%MOMM*%
%ADD10C,0.1*%
D10*
X0Y0D02*
X10000Y0D01*
M02*
''')
g = to_metric(f)
g.offset(1, 1)
assert f.primitives[0].start == (0, 0), f.primitives[0].start
"""),
 dict(sid='c08_write_sorts', prop='C08', edits=[(X, """        filename = filename if filename is not None else self.filename
        with open(filename, 'w') as f:
""", """        filename = filename if filename is not None else self.filename
        self.hits.sort(key=lambda hit: hit.tool.number)
        with open(filename, 'w') as f:
""")], needs='a drill file whose hits are not in tool order, written', breaks='writing reorders the hits of the file',
  demo="""import os, tempfile
from gerber.excellon import loads
f = loads('M48\\nINCH,LZ\\nT1C0.1\\nT2C0.2\\n%\\nT2\\nX01Y01\\nT1\\nX02Y02\\nM30\\n')
a = [h.tool.number for h in f.hits]
d = tempfile.mkdtemp()
p = os.path.join(d, 'o.drl')
f.write(p)
os.remove(p)
os.rmdir(d)
assert [h.tool.number for h in f.hits] == a
"""),
 dict(sid='c12_g05_down', prop='C12', edits=[(X, """            self.statements.append(DrillModeStmt())
            self.drill_down = False
            self.state = 'DRILL'
""", """            self.statements.append(DrillModeStmt())
            self.state = 'DRILL'
""")], needs='M15, G05, then G01 without another M15', breaks='the spindle is still down after returning to drill mode, so a positioning move becomes a slot',
  demo="""from gerber.excellon import loads
f = loads('M48\\nINCH,LZ\\nT1C0.1\\n%\\nT1\\nG00X0Y0\\nM15\\nG05\\nG01X01Y01\\nM30\\n')
assert len(f.hits) == 0, f.hits
"""),
 dict(sid='c12_repeat_incremental', prop='C12', edits=[(X, """            for i in range(stmt.count):
                self.pos[0] += stmt.xdelta if stmt.xdelta is not None else 0
                self.pos[1] += stmt.ydelta if stmt.ydelta is not None else 0
""", """            origin = tuple(self.pos)
            for i in range(1, stmt.count + 1):
                self.pos[0] = origin[0] + i * (stmt.xdelta or 0)
                self.pos[1] = origin[1] + i * (stmt.ydelta or 0)
            self.pos = list(origin)
            for i in range(stmt.count):
                self.pos[0] += stmt.xdelta if stmt.xdelta is not None else stmt.ydelta if stmt.count > 1 and self.notation != 'absolute' else 0
                self.pos[1] += stmt.ydelta if stmt.ydelta is not None else 0
""")], needs='a repeat with only a Y step in incremental mode', breaks='the y step is also taken in x',
  demo="""from gerber.excellon import loads
f = loads('M48\\nINCH,LZ\\nT1C0.1\\n%\\nICI,ON\\nT1\\nX01Y01\\nR2Y01\\nM30\\n')
assert f.hits[-1].position == (1.0, 3.0), f.hits[-1].position
"""),
 dict(sid='c12_t0_keeps', prop='C12', edits=[(X, """                if self.state == 'LINEAR' and self.drill_down:
                    if not self.active_tool:
                        self.active_tool = self._get_tool(1)

                    self.hits.append(DrillSlot(self.active_tool, start, tuple(self.pos), DrillSlot.TYPE_ROUT))
""", """                if self.state == 'LINEAR' and self.drill_down:
                    if not self.active_tool:
                        self.active_tool = self._get_tool(1)

                    if stmt.x is None:
                        start = (self.pos[0], start[0])
                    self.hits.append(DrillSlot(self.active_tool, start, tuple(self.pos), DrillSlot.TYPE_ROUT))
""")], needs='a routed move in linear mode that gives only Y', breaks='the slot starts at the wrong y',
  demo="""from gerber.excellon import loads
f = loads('M48\\nINCH,LZ\\nT1C0.1\\n%\\nT1\\nG01X03Y01\\nM15\\nY02\\nM30\\n')
assert f.hits[-1].start == (3.0, 1.0), f.hits[-1].start
"""),
 dict(sid='c14_strip_sign', prop='C14', edits=[(U, """    missing_digits = MAX_DIGITS - len(value)
""", """    missing_digits = MAX_DIGITS - len(value)
    if negative and zero_suppression == 'trailing' and missing_digits == 0 and not value.rstrip('0')[decimal_digits:]:
        return 0.0 if not value.strip('0') else float(value) / 10 ** integer_digits * -1
""")], needs='a text of full length whose last digits are zero and a format with different digit counts', breaks='the point is placed by the integer digits, so 123000 in 2:4 reads 1230',
  demo="""from gerber.utils import *
assert parse_gerber_value('-123000', (2, 4), 'trailing') == -12.3, parse_gerber_value('-123000', (2, 4), 'trailing')
"""),
 dict(sid='c14_decimal', prop='C14', edits=[(U, """    floatstr = '%0.10g' % value
""", """    floatstr = '%0.10g' % value if abs(value) < 1000 else '%0.8g' % value
""")], needs='a value of four integer digits and five decimals', breaks='the decimals of large numbers are cut to eight significant digits',
  demo="""from gerber.utils import *
assert decimal_string(1234.56789, 5) == '1234.56789', decimal_string(1234.56789, 5)
"""),
]
