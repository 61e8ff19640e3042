R = 'gerber/rs274x.py'
E = 'gerber/excellon.py'
D = '''from gerber.excellon import *
from gerber.rs274x import loads, GerberFile
from gerber.cam import FileSettings
from gerber.excellon_statements import ExcellonTool
from gerber.primitives import Rectangle

st = FileSettings(units='inch', format=(2, 4), zero_suppression='trailing')


def gerber(*blocks):
    return loads('%FSLAX24Y24*%\\n%MOIN*%\\n%ADD10C,0.01*%\\nD10*\\n' + '\\n'.join(blocks) + '\\nM02*\\n')


def tool(n, d=0.5):
    return ExcellonTool(FileSettings(units='inch', format=(2, 4)), number=n, diameter=d)


def drill(tools, hits):
    return ExcellonFile([], dict((t.number, t) for t in tools), hits, st)


'''
SEEDS = [
    dict(sid='c26_negative_bounds', prop='C26', edits=[(R, "    def bounds(self):\n        min_x = min_y = 1000000\n        max_x = max_y = -1000000", "    def bounds(self):\n        min_x = min_y = 1000000\n        max_x = max_y = -1")],
         needs='a board that lies below -1', breaks='the largest y is wrong', demo=D + "g = gerber('X10000Y-20000D02*', 'X20000Y-15000D01*', 'X20000Y-16000D01*')\nassert g.bounds == ((1, 2), (-2, -1.5)), g.bounds\n"),
    dict(sid='c26_box_lower', prop='C26', edits=[(R, "            min_x = min(bounds[0][0], min_x)\n            max_x = max(bounds[0][1], max_x)\n\n            min_y", "            if bounds[0][0] >= min_x or max_x == -1000000:\n                max_x = max(bounds[0][1], max_x)\n            min_x = min(bounds[0][0], min_x)\n\n            min_y")],
         needs='a wide shape that reaches beyond the others on both sides', breaks='the right end of the bounding box', demo=D + "f = GerberFile([], st, [Rectangle((100, 0), 2, 1), Rectangle((99, 0), 40, 1)], [])\nassert f.bounding_box[0] == (79, 119), f.bounding_box\n"),
    dict(sid='c26_slot_box', prop='C26', edits=[(E, "        max_y = max(start[1], end[1]) + radius", "        max_y = (end[1] if end[0] > start[0] else max(start[1], end[1])) + radius")],
         needs='a slot that runs right and down', breaks='its bounding box ends at the lower end', demo=D + "t = tool(1)\nassert drill([t], [DrillSlot(t, (0, 3), (2, 1), 1)]).bounding_box == ((-0.25, 2.25), (0.75, 3.25))\n"),
    dict(sid='c26_path_tools', prop='C26', edits=[(E, "            tool = hit.tool\n            num = tool.number\n", "            tool = hit.tool\n            num = tool.number\n            if tool_number is not None and num != tool_number:\n                positions[num] = positions[tool_number] = getattr(hit, 'end', positions.get(tool_number))\n                continue\n")],
         needs='the path length of one tool asked when a slot of another tool lies between its holes', breaks='the way starts at the end of that slot', demo=D + "a, b = tool(1), tool(2)\nassert drill([a, b], [DrillHit(a, (3, 4)), DrillSlot(b, (9, 9), (50, 50), 1), DrillHit(a, (3, 5))]).path_length(1) == 6\n"),
    dict(sid='c26_update', prop='C26', edits=[(E, "            self.tools[tool_number].depth_offset = kwargs.get('depth_offset')\n", "            self.tools[tool_number].depth_offset = kwargs.get('depth_offset')\n            if kwargs.get('diameter') is not None:\n                self.tools[tool_number].diameter = kwargs.get('depth_offset')\n")],
         needs='a tool updated with a diameter and a depth offset', breaks='the depth offset becomes the diameter', demo=D + "t = tool(1)\nf = drill([t], [DrillHit(t, (0, 0))])\nf.update_tool(1, diameter=0.25, depth_offset=0.125)\nassert f.hits[0].tool.diameter == 0.25\n"),
    dict(sid='c26_update_hits', prop='C26', edits=[(E, "            if hit.tool.number == newtool.number:\n                hit.tool = newtool", "            if hit.tool == newtool:\n                hit.tool = newtool")],
         needs='hits that hold an equal tool object of their own, as in a merged file', breaks='they keep the old parameters', demo=D + "t, u = tool(1), tool(1)\nf = drill([t], [DrillHit(u, (0, 0))])\nf.update_tool(1, diameter=0.25)\nassert f.hits[0].tool.diameter == 0.25\n"),
    dict(sid='c26_slot_prims', prop='C26', edits=[(E, "                primitives.append(Slot(hit.start, hit.end, hit.tool.diameter,", "                primitives.append(Slot(min(hit.start, hit.end), max(hit.start, hit.end), hit.tool.diameter,")],
         needs='a slot that runs to the left', breaks='its primitive runs from the other end', demo=D + "t = tool(1)\np = drill([t], [DrillSlot(t, (2, 0), (0, 1), 1)]).primitives[0]\nassert (p.start, p.end) == ((2, 0), (0, 1)), (p.start, p.end)\n"),
]
