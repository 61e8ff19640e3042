T = 'gerber/excellon_tool.py'
S = 'gerber/excellon_settings.py'
D = '''from gerber.excellon_tool import *
from gerber import excellon_settings
from gerber.cam import FileSettings


def near(a, b):
    assert abs(a - b) < 1e-6, (a, b)


C = 'Holesize %d. = %s Tolerance = +3.000000/-2.000000 %s %s Quantity = 7'
'''
SEEDS = [
    dict(sid='c27_mm_inch', prop='C27', edits=[(T, "        if self.settings.units == 'inch':\n            return value / 25.4", "        if self.settings.units == 'inch' and unit == 'mils':\n            return value / 25.4")],
         needs='a hole table in millimeters read into an inch file', breaks='diameters are 25.4 times too large',
         demo=D + "near(loads(C % (1, '2.54', 'PLATED', 'MM'), FileSettings(units='inch'))[1].diameter, 0.1)\n"),
    dict(sid='c27_optional', prop='C27', edits=[(T, "                elif platedstr == 'OPTIONAL':\n                    plated = ExcellonTool.PLATED_OPTIONAL", "                elif platedstr == 'OPTIONAL':\n                    plated = ExcellonTool.PLATED_YES")],
         needs='a hole with optional plating', breaks='it is read as plated', demo=D + "assert loads(C % (1, '40', 'OPTIONAL', 'MILS'), FileSettings())[1].plated == ExcellonTool.PLATED_OPTIONAL\n"),
    dict(sid='c27_tool_digits', prop='C27', edits=[(T, "    allegro2_comment_mm = re.compile('T(?P<toolid>[0-9]{1,2}) Holesize", "    allegro2_comment_mm = re.compile('T0?(?P<toolid>[0-9]) Holesize")],
         needs='a metric hole line with T and a number of two digits', breaks='the tool is not read',
         demo=D + "assert list(loads('T12 ' + C % (12, '1', 'PLATED', 'MM'), FileSettings())) == [12]\n"),
    dict(sid='c27_report_head', prop='C27', edits=[(T, "        elif  line[0] != '=':", "        else:"), (T, "            if len(parts) == 6:", "            if len(parts) == 6 and parts[0] > '0':")],
         needs='a report whose rule is repeated', breaks='reading raises ValueError',
         demo=D + "H = '====  ====  ====  ====  =====  ===\\n'\nt = loads_rep(H + '1 0.5 x 100 20 3\\n' + H)\nassert list(t) == [1]\n"),
    dict(sid='c27_report_speed', prop='C27', edits=[(T, "                                    rpm=speed)", "                                    rpm=min(speed, 60))")],
         needs='a spindle speed over 60', breaks='the speed is cut', demo=D + "H = '====  ====  ====  ====  =====  ===\\n'\nt = loads_rep(H + '1 0.5 x 100 80 3\\n')\nassert t[1].rpm == 80\n"),
    dict(sid='c27_settings_order', prop='C27', edits=[(S, "                item_value = item_type_info[0](line_items[1])", "                item_value = item_type_info[0](line_items[1])\n                if item_type_info[1] == 'format-dec' and 'format-int' not in self.values:\n                    self.values['format-int'] = 2"),
                                                     (S, "                self.values[item_type_info[1]] = item_value", "                self.values.setdefault(item_type_info[1], item_value)")],
         needs='a settings file stating decimal places before integer places', breaks='integer places are two whatever the file says',
         demo=D + "s = excellon_settings.loads('DECIMAL-PLACES 4\\nINTEGER-PLACES 3\\nCOORDINATES ABSOLUTE\\nOUTPUT-UNITS METRIC\\n')\nassert s.format == (3, 4), s.format\n"),
]
