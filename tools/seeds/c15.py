S = 'gerber/cam.py'
X = 'gerber/excellon.py'
U = 'gerber/utils.py'
C = 'gerber/common.py'
SEEDS = [
 dict(sid='c15_half_setter', prop='C15', edits=[(S, """                raise ValueError('Zeros must be either leading or trailling')
            self.zeros = value
""", """                raise ValueError('Zeros must be either leading or trailling')
            if self.notation == 'incremental':
                self._zeros = value
            else:
                self.zeros = value
""")],
  needs='zeros assigned by key on settings with incremental notation', breaks='zero_suppression keeps its old value',
  demo="""from gerber.cam import FileSettings
s = FileSettings(zeros='leading', notation='incremental')
s['zeros'] = 'trailing'
assert s.zero_suppression == 'leading', s.zero_suppression
"""),
 dict(sid='c15_eq_zeros', prop='C15', edits=[(S, """        return (self.notation == other.notation and
                self.units == other.units and
                self.zero_suppression == other.zero_suppression and
""", """        return (self.notation == other.notation and
                (self.units == other.units or self.format == (3, 5)) and
                self.zero_suppression == other.zero_suppression and
""")], needs='settings with format 3.5 that differ in units', breaks='settings in different units compare equal',
  demo="""from gerber.cam import FileSettings
assert not FileSettings(units='inch', format=(3, 5)) == FileSettings(units='metric', format=(3, 5))
"""),
 dict(sid='c15_camfile_order', prop='C15', edits=[(S, """            self.zero_suppression = settings['zero_suppression']
            self.zeros = settings['zeros']""", """            self.zero_suppression = settings['zero_suppression'] if settings['notation'] == 'absolute' else 'trailing'
            self.zeros = settings['zeros']""")], needs='a file with incremental notation and leading suppression', breaks='the file gives back other settings than it was made with',
  demo="""from gerber.cam import FileSettings, CamFile
s = FileSettings(notation='incremental', zero_suppression='leading')
assert CamFile(settings=s).settings == s
"""),
 dict(sid='c21_first_mark', prop='C21', edits=[(U, """        if 'M48' in line:""", """        if 'M48' in line and len(line) < 20:""")], needs='a drill file whose M48 line carries a long comment', breaks='the file is not recognised as a drill file',
  demo="""from gerber.common import loads
f = loads('M48 ; drill file of board 1234567890\\nINCH,TZ\\nT1C0.1\\n%\\nT1\\nX010000Y010000\\nM30\\n')
assert type(f).__name__ == 'ExcellonFile', f
"""),
 dict(sid='c21_declared_format', prop='C21', edits=[(X, """    if detected_format is not None:
        format_options = (detected_format,)
    if detected_zeros""", """    if detected_format in format_options:
        format_options = (detected_format,)
    if detected_zeros""")], needs='a drill file that declares a format such as 4:2 but no zeros', breaks='another format than the declared one is used',
  demo="""from gerber.excellon import detect_excellon_format
d = detect_excellon_format('M48\\n;FILE_FORMAT=4:2\\nT1C0.1\\n%\\nT1\\nX010000Y010000\\nX020000Y005000\\nM30\\n')
assert d['format'] == (4, 2), d
"""),
 dict(sid='c21_settings_dropped', prop='C21', edits=[(X, """    if not settings:
        settings = FileSettings(**detect_excellon_format(data))
    return ExcellonParser(settings, tools).parse_raw(data, filename)""", """    if not settings or settings == FileSettings():
        settings = FileSettings(**detect_excellon_format(data))
    return ExcellonParser(settings, tools).parse_raw(data, filename)""")], needs='drill data read with settings equal to the defaults', breaks='the settings passed are ignored',
  demo="""from gerber.excellon import loads
from gerber.cam import FileSettings
f = loads('M48\\nT1C0.1\\n%\\nT1\\nX010000Y010000\\nX000300Y045000\\nM30\\n', settings=FileSettings())
assert f.settings.format == (2, 5), f.settings.format
assert abs(f.hits[0].position[0] - 1) < 1e-9, f.hits[0].position
"""),
]
