I = 'gerber/ipc356.py'
D = '''from gerber.ipc356 import *
from gerber.cam import FileSettings


def near(a, b):
    assert abs(a - b) < 1e-9, (a, b)


def rec(t, units='inch', angle='degrees'):
    return IPC356_TestRecord.from_line(t, FileSettings(units=units, angle_units=angle))


V = '317%-14s   VIA         D  24PA00X  14900Y   1450X 396Y 396'
'''
SEEDS = [
    dict(sid='c23_dia_metric', prop='C23', edits=[(I, "            record['hole_diameter'] = (dia * 0.0001 if units == 'inch'\n                                       else dia * 0.001)", "            record['hole_diameter'] = dia * 0.0001")],
         needs='a hole in a metric netlist', breaks='hole diameters of metric netlists are ten times too small',
         demo=D + "near(rec(V % 'A', 'metric').hole_diameter, 0.024)\nnear(rec(V % 'A').hole_diameter, 0.0024)\n"),
    dict(sid='c23_long_id_mask', prop='C23', edits=[(I, "            sm_info = line[73 + offset:end].strip()", "            sm_info = line[73:end][-1:].strip() if offset < 4 else line[73:74].strip()")],
         needs='a component name at least ten characters long', breaks='the solder mask of such records is read from the wrong column',
         demo=D + "r = rec('317SCL              COMMUNICATION-1    D  40PA00X  34000Y  20000X 600Y1200R270 S2')\nassert r.soldermask_info == 'secondary side', r.soldermask_info\n"),
    dict(sid='c23_nname_digits', prop='C23', edits=[(I, "_NNAME = re.compile(r'^NNAME\\d+$')", "_NNAME = re.compile(r'^NNAME\\d$')")],
         needs='more than nine net name variables', breaks='NNAME10 and following are not replaced',
         demo=D + "f = loads('P  NNAME1 LONG1\\nP  NNAME10 LONG10\\n' + V % 'NNAME1' + '\\n' + V % 'NNAME10' + '\\n999\\n')\nassert [r.net_name for r in f.test_records] == ['LONG1', 'LONG10'], f.test_records\n"),
    dict(sid='c23_units_final', prop='C23', edits=[(I, "                elif p.value == 'CUST 2':\n                    self.units = 'inch'\n", "                elif p.value == 'CUST 2':\n")],
         needs='a netlist that changes from metric to radians', breaks='units stay metric after UNITS CUST 2',
         demo=D + "f = loads('P  UNITS CUST 1\\nP  UNITS CUST 2\\n' + V % 'A' + '\\n999\\n')\nassert f.settings.units == 'inch'\nnear(f.test_records[0].x_coord, 1.49)\n"),
    dict(sid='c23_conductor_y', prop='C23', edits=[(I, """                y = int(coord_dict['y']) if coord_dict['y'] is not '' else y
                shape.append((x * scale, y * scale))""", """                y = int(coord_dict['y']) if coord_dict['y'] is not '' else (y if len(shape) < 2 else int(round(shape[-2][1] / scale)))
                shape.append((x * scale, y * scale))""")],
         needs='a conductor of three points or more where y changes and is left out next', breaks='a left out y takes the value of two points before',
         demo=D + "c = IPC356_Conductor.from_line('378N              01 X10 X0Y0 Y200 X300*', FileSettings(units='inch'))\nnear(c.shapes[0][2][1], .02)\n"),
    dict(sid='c23_adjacent_reverse', prop='C23', edits=[(I, "                elif net in record.adjacent_nets:\n", "                elif net in record.adjacent_nets and record.net in [r.net_name for r in self.test_records]:\n")],
         needs='a net adjacent to one that has no test record', breaks='such adjacent nets are missing',
         demo=D + "f = loads(V % 'B' + '\\n379A B\\n999\\n')\nassert [(n.name, set(n.adjacent_nets)) for n in f.nets] == [('B', {'A'})]\n"),
    dict(sid='c23_continuation', prop='C23', edits=[(I, "                    if len(line) and line[0] == '0':\n                        oldline = oldline.rstrip('\\r\\n') + line[3:].rstrip()", "                    if len(line) and line[0] == '0' and line[1:3] == oldline[1:3] and oldline[0] == '3':\n                        oldline = oldline.rstrip('\\r\\n') + line[4:].rstrip()")],
         needs='a continuation line whose content starts in its fourth column', breaks='its first character is lost',
         demo=D + "f = loads('379A B\\n079 CC DD\\n999\\n')\nassert f.adjacency_records[0].adjacent_nets == ['B', 'CC', 'DD'], f.adjacency_records[0].adjacent_nets\n"),
    dict(sid='c23_components_case', prop='C23', edits=[(I, "                         if rec.id is not None and rec.id != 'VIA']))", "                         if rec.id and not rec.id.startswith('VIA')]))")],
         needs='a component whose name starts with VIA', breaks='it is not listed as component',
         demo=D + "f = loads(V.replace('VIA   ', 'VIA12 ') % 'B' + '\\n999\\n')\nassert f.components == ['VIA12'], f.components\n"),
    dict(sid='c23_render_bottom', prop='C23', edits=[(I, "            elif layer == 'bottom' and p.layer in ('bottom', 'both'):", "            elif layer == 'bottom' and p.layer == 'bottom':")],
         needs='rendering the bottom of a netlist with through holes', breaks='test points accessible from both sides are not drawn on the bottom',
         demo=D + "class C(object):\n    n = 0\n    def render(self, p):\n        self.n += 1\nf = loads(V % 'B' + '\\n999\\n')\nc = C()\nf.render(c, 'bottom')\nassert c.n == 1\n"),
    dict(sid='c23_middle', prop='C23', edits=[(I, "        record['location'] = 'middle' if line[31 + offset] == 'M' else 'end'", "        record['location'] = 'middle' if 'M' in line[27 + offset:32 + offset] else 'end'")],
         needs='a pin whose name holds an M', breaks='such records count as middle of their net',
         demo=D + "r = rec('317                 J4    -M2   D0330PA00X 012447Y 008030X0000          S1')\nassert r.location == 'end'\n"),
]
SEEDS = [s for s in SEEDS if s['breaks']]
