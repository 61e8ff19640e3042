R = 'gerber/rs274x.py'
SEEDS = [
    dict(sid='c25_dump_json', prop='C25', edits=[(R, '        stmts = {"statements": [stmt.__dict__ for stmt in self.statements]}\n', '        stmts = {"statements": [stmt.__dict__ for stmt in self.statement_list]}\n')],
         needs='GerberParser.dump_json', breaks='it raises AttributeError',
         demo='from gerber.rs274x import GerberParser\np = GerberParser()\nassert p.dump_json() == \'{"statements": []}\'\n'),
    dict(sid='c25_unassigned', prop='C25', edits=[('gerber/layers.py', "        return '<PCBLayer: {}>'.format(self.layer_class)", "        return '<PCBLayer: {}>'.format(self.layer_class, layer_name)")],
         needs='repr of a layer', breaks='it raises NameError',
         demo='from gerber.layers import PCBLayer\nassert repr(PCBLayer("x.gtl", "top")) == "<PCBLayer: top>"\n'),
    dict(sid='c25_call', prop='C25', edits=[('gerber/cam.py', "        return ('<Settings: %s %s %s %s %s>' %\n                (self.units, self.notation, self.zero_suppression, self.format, self.angle_units))",
                                             "        return ('<Settings: %s %s %s %s>' %\n                (self.units, self.notation, self.zero_suppression, self.format, self.angle_units))")],
         needs='str of the settings', breaks='it raises TypeError',
         demo='from gerber.cam import FileSettings\nassert "absolute" in str(FileSettings())\n'),
]
