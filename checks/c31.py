"""C31 reading ends."""
import ast
import itertools

import os
import warnings

from sa import ambig
from sa.lab import *
from sa.values import Regex
from sa.par import parallel
from .strs import *

RULE = ('Every regular expression the package compiles or uses is turned into its position automaton: no repetition may match one word in two ways and then fail (the condition for a matcher to take exponential time). '
        'Abstract interpretation of the readers on every short sequence of the tokens of their formats, whole and broken off, with a bound on the rounds of any loop: each ends with a result or an exception. '
        'Repeating a piece of a text twice as often at most quadruples the work.')
ASSUMPTIONS = ['a loop that does not end on some text does not end on a text of few tokens', 'work is counted in interpreted steps, matching of regular expressions apart']

GERBER = ['%', '*', '\n', 'X1', 'Y-2', 'I5J5', 'D01', 'D10', 'G04', 'G36', 'G37', 'G01', 'G02', 'G54', 'G70', 'G74', 'G75', 'G90', 'M02', '%FSLAX24Y24*%', 'FSLAX24Y24', 'MOIN', 'ADD10C,', 'ADD10C,0.1', 'AMX', '%AMA*1,1,0.1,0,0*%',
          '%ADD11A*%', 'LPD', ' ', '?', 'IN', 'LNx', 'OFA1', 'SFA1', 'IFx', '\r', '0']
DRILL = ['M48', '%', 'INCH', 'METRIC,LZ', 'T1C0.1', 'T01', 'T0', 'X1Y1', 'X1.5', 'R3X1', 'R', 'G85', 'X1Y1G85X2Y2', 'G05', 'G00X1Y1', 'G01', 'M15', 'M16', 'M17', 'M25', 'M30', 'M47', 'M71', 'FMAT,2', 'ICI,ON', 'VER,1', 'ATC,ON',
         'G90', 'G91', 'G93X1Y1', ';x', ';FILE_FORMAT=2:4', '', '?', '0', 'M95', 'G40', 'G41', 'B1', 'T1F1S1', 'T', 'C', 'X', 'Z']
MACRO = '$1,.-+x/()=0 *'
NET = ['C', 'C  x', 'P', 'P  JOB x', 'P  UNITS CUST 0', 'P  UNITS CUST 1', 'P  NNAME1 LONG', 'P  IMAGE', '317', '317N              VIA         MD0118PA00X+001000Y+002000X0236Y0000R000 S0', '327N', '389', '389BOARD_EDGE      X0Y0 X10Y0 X10Y10',
       '378', '378N  L1 X10Y0 X0Y0 X10', '379', '379A B', '999', '', '?', '0', '027']
TOOL = ['', '?', '==== ==== ==== ==== ===== ===', '1 0.5 x 1 1 1', '1', '1 x', '10.0 P T01 0 0', '10.0   P', 'Holesize 1. = 2.0 Tolerance = +0.0/-0.0 PLATED MILS Quantity = 1', 'Holesize 1. =', 'T1 Holesize', '/', '=']
SET = ['', '?', 'INTEGER-PLACES 2', 'DECIMAL-PLACES 4', 'COORDINATES ABSOLUTE', 'OUTPUT-UNITS ENGLISH', 'OUTPUT-UNITS', 'x y']

READERS = {
    'gerber': ('gerber.rs274x:loads', GERBER, ''),
    'excellon': ('gerber.excellon:loads', DRILL, '\n'),
    'netlist': ('gerber.ipc356:loads', NET, '\n'),
    'tools': ('gerber.excellon_tool:loads', TOOL, '\n'),
    'report': ('gerber.excellon_tool:loads_rep', TOOL, '\n'),
    'settings': ('gerber.excellon_settings:loads', SET, '\n'),
    'macro': ('gerber.am_read:read_macro', list(MACRO), ''),
}
MODULES = ['gerber.am_read', 'gerber.am_eval', 'gerber.rs274x', 'gerber.excellon', 'gerber.ipc356', 'gerber.excellon_tool', 'gerber.excellon_settings', 'gerber.common', 'gerber.layers']
HEADS = {'excellon': [[], ['M48', 'INCH,TZ', 'T1C0.1', '%', 'T1']], 'gerber': [[], ['%FSLAX24Y24*%%MOIN*%%ADD10C,0.1*%D10*'], ['%AMA*']], 'settings': [[], SET[2:6]], 'netlist': [[]], 'tools': [[]], 'report': [[], TOOL[2:3]], 'macro': [[], ['1,1,']]}
SHORT = 120000         # steps no text of a few tokens needs
ROUNDS = 400


def run(O, thorough):
    L = Lab(MODULES)
    L.fresh()
    if not patterns(O, L):
        return
    jobs = []
    for name in READERS:
        toks = READERS[name][1]
        n = {'macro': 3, 'gerber': 2, 'excellon': 2, 'netlist': 3, 'tools': 3, 'report': 3, 'settings': 4}[name] + (1 if thorough else 0)
        for h in range(len(HEADS[name])):
            for t in range(len(toks)):
                jobs.append((name, h, n, t))
        for t in range(len(toks)):
            jobs.append((name, 0, 0, t))
    parallel(O, jobs, lambda j: go(O, j))
    cycles(O)


def cycles(O):
    """Files that include themselves."""
    L = Lab(MODULES[:7])
    L.I.loop_guard = True
    L.I.LOOP_UNROLL = ROUNDS
    L.I.MAX_STEPS = 1000000
    for i, files in enumerate([{'x': 'IFx*'}, {'x': '%IFx*%'}, {'x': 'X1Y1D02*\n%IFx*%\nX1Y1D01*\n'}, {'x': '%IFx*%%IFx*%'}, {'x': '%IFy*%', 'y': '%IFx*%'}, {'x': '%IFy*%%IFy*%', 'y': '%IFz*%\n%IFz*%', 'z': '%IFx*%'}]):
        for text in ('%IFx*%', 'X1Y1D02*\n%IFx*%\nX1Y1D01*\n%IFx*%'):
            L.fresh()
            L.I.files = files
            key = 'include:%d:%r' % (i, text)
            oc = L.run(lambda: read(L, 'gerber', text))
            O.note(L)
            if oc.kind == 'raise':
                O.equal(key, oc.value, ['IOError', 'OSError'], L.where('gerber.rs274x:GerberParser._parse'), 'exception for files that include each other')
            else:
                O.fail(key, L.where('gerber.rs274x:GerberParser._parse'), 'reading %r with included files %r does not end in IOError: %s' % (text, files, oc.why or oc.kind))


def patterns(O, L):
    """Constant patterns of the sources and every pattern met while the modules are loaded."""
    found = {}
    for rel, tree in sources(L.project):
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 're' and n.args:
                try:
                    p = ast.literal_eval(n.args[0])
                except Exception:
                    continue
                if isinstance(p, str):
                    found.setdefault((p, 0), '%s:%d' % (rel, n.lineno))
    L.fresh()
    # names and contents that match no hint meet the pattern of every hint
    L.I.files = {'zq.qz': 'zz\n'}
    oc = L.run(lambda: L.I.call(L.obj_from('gerber.layers:guess_layer_class'), ['zq.qz'], {}))
    O.note(L)
    if oc.kind != 'ok':
        O.undecided('pattern:layers', oc.why or str(oc.value))
    for p, f in list(Regex.seen):
        if isinstance(p, str):
            found.setdefault((p, int(f or 0)), 'a module of gerber')
    good = True
    for (p, f), where in sorted(found.items(), key=str):
        key = 'pattern:%s:%s' % (p[:80], f)
        try:
            c = ambig.exponential(p, f)
        except (ambig.Unsupported, Exception) as e:
            O.undecided(key, '%s: %s' % (type(e).__name__, e))
            good = False
            continue
        if c is None:
            O.ok(key)
        else:
            good = False
            O.fail(key, where, 'a text of repeated %r that does not match takes time exponential in its length with the pattern %r' % (c, p[:120]))
    return good


def go(O, job):
    name, h, n, t = job
    fn, toks, sep = READERS[name]
    L = Lab(MODULES[:7])
    L.I.loop_guard = True
    L.I.LOOP_UNROLL = ROUNDS
    L.I.files = Every()
    head = HEADS[name][h]
    if n == 0:
        pump(O, L, name, t)
    else:
        for k in range(n):
            for rest in itertools.product(toks, repeat=k):
                text = sep.join(head + [toks[t]] + list(rest))
                one(O, L, name, text)
    O.note(L)
    L.I.call_log.clear()


class Every(dict):
    """Every file exists and holds little."""
    def __contains__(self, k):
        return True

    def __missing__(self, k):
        return 'G04 y*X1Y1D01*\n'

    def get(self, k, default=None):
        return self[k]


def read(L, name, text):
    fn = READERS[name][0]
    r = L.I.call(L.obj_from(fn), [text], {})
    if name == 'macro':
        r = L.I.call(L.obj_from('gerber.am_eval:eval_macro'), [r, L.dict()], {})
    return r


def one(O, L, name, text):
    key = '%s:%r' % (name, text)
    L.I.MAX_STEPS = SHORT
    L.fresh()
    oc = L.run(lambda: read(L, name, text))
    if oc.kind != 'undecided':
        O.ok(key)
    elif oc.why.startswith('loop at') or 'budget' in oc.why or 'recursion' in oc.why or 'depth' in oc.why:
        O.fail(key, L.where(READERS[name][0]), 'reading %r does not end: %s' % (text, oc.why))
    else:
        O.undecided(key, oc.why)


PAIRS = {'gerber': ['', 'X1', '%', '*', '('], 'macro': ['', '1,', '$1=', '(', '-']}


def pump(O, L, name, t):
    fn, toks, sep = READERS[name]
    L.I.MAX_STEPS = 4000000
    L.I.LOOP_UNROLL = 5000
    for pre in HEADS[name]:
        for other in PAIRS.get(name, ['']) + [toks[(t + 3) % len(toks)]]:
            steps = []
            key = 'growth:%s:%r:%r:%r' % (name, pre, toks[t], other)
            for k in (12, 24, 48):
                text = sep.join(pre + ([toks[t]] if not other else [toks[t], other]) * k)
                L.fresh()
                s0 = L.I.steps
                oc = L.run(lambda: read(L, name, text))
                steps.append(L.I.steps - s0)
                if oc.kind == 'undecided':
                    break
            if oc.kind == 'undecided':
                if oc.why.startswith('loop at') or 'budget' in oc.why or 'recursion' in oc.why or 'depth' in oc.why:
                    O.fail(key, L.where(fn), 'reading %r repeated %d times takes more than %d steps (%s)' % (toks[t] + other, k, steps[-1], oc.why))
                else:
                    O.undecided(key, oc.why)
            elif steps[2] > 4.6 * max(steps[1], 400) and steps[1] > 3 * max(steps[0], 1):
                O.fail(key, L.where(fn), 'reading %r repeated 12, 24 and 48 times takes %s steps' % (toks[t] + other, steps))
            else:
                O.ok(key)


def sources(project):
    root = project.root if hasattr(project, 'root') else os.environ.get('VERIF_REPO', '/repo')
    for d, ds, fs in os.walk(os.path.join(root, 'gerber')):
        ds[:] = [x for x in ds if x != 'tests']
        for f in sorted(fs):
            if f.endswith('.py'):
                with open(os.path.join(d, f), encoding='utf-8', errors='replace') as h:
                    try:
                        with warnings.catch_warnings():
                            warnings.simplefilter('ignore')
                            yield os.path.relpath(os.path.join(d, f), root), ast.parse(h.read())
                    except SyntaxError:
                        pass
