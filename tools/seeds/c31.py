S = 'gerber/rs274x.py'
A = 'gerber/am_read.py'
T = 'gerber/excellon_tool.py'
AL = """import os, signal, sys, time
pid = os.fork()
if pid:
    for _ in range(200):
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            sys.exit(1 if st else 0)
        time.sleep(.1)
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    sys.exit('does not end')
"""
SEEDS = [
    dict(sid='c31_stray_percent', prop='C31', edits=[(S, "                # consume empty data blocks\n                if line[0] == '*':\n                    line = line[1:]\n", "                # consume empty data blocks\n                if line[0] in '*%' and line[1:2] in ('', '%', '*'):\n                    line = line[1:].lstrip('*') or line[:0 if line[0] == '*' else 1]\n")],
         needs='a percent sign of its own at the end of a line', breaks='reading does not end',
         demo=AL + "from gerber.rs274x import loads\nloads('%FSLAX24Y24*%\\n%MOIN*%\\nX1Y1D02*\\nM02*\\n')\nloads('%FSLAX24Y24*%\\n%MOIN*%\\nX1Y1D02*\\n%\\nM02*\\n')\n"),
    dict(sid='c31_comment_words', prop='C31', edits=[(S, 'COMMENT_STMT = re.compile(r"G0?4(?P<comment>[^*]*)(\\*)?")', 'COMMENT_STMT = re.compile(r"G0?4(?P<comment>(?:[^*\\s]+\\s*|\\s+)*)\\*")')],
         needs='a long comment without an asterisk', breaks='the pattern of comments takes exponential time',
         demo=AL + "from gerber.rs274x import loads\nf = loads('%FSLAX24Y24*%\\nG04 short comment*\\nM02*\\n')\nassert len(f.statements) == 3\nloads('%FSLAX24Y24*%\\nG04 ' + 'x' * 45 + '\\nM02*\\n')\n"),
    dict(sid='c31_two_points', prop='C31', edits=[(A, "        while not self.eof() and (self.peek() in string.digits or self.peek() == \".\"):\n            n += self.getc()\n", "        while not self.eof() and (self.peek() in string.digits or self.peek() == \".\"):\n            n += self.getc()\n            if n.count('.') > 1:\n                # the point belongs to the next number\n                self.ungetc()\n                n = n[:-1]\n")],
         needs='a number with two points in a macro', breaks='reading the macro does not end',
         demo=AL + "from gerber.am_read import read_macro\nread_macro('1,1,0.5,0.25,0')\ntry:\n    read_macro('1,1,0.5.1,0,0')\nexcept ValueError:\n    pass\n"),
    dict(sid='c31_tool_size', prop='C31', edits=[(T, "allegro_tool = re.compile(r'(?P<size>[0-9/.]+)\\s+(?P<plated>P|N)", "allegro_tool = re.compile(r'(?P<size>(?:[0-9]+[/.]?)+)\\s+(?P<plated>P|N)")],
         needs='a line that starts with a long number', breaks='the pattern of tool tables takes exponential time',
         demo=AL + "from gerber.excellon_tool import loads\nassert len(loads('39.37   P   T01   0.0   0.0\\n')) == 1\nassert loads('1' * 45 + '\\n') == {}\n"),
]
