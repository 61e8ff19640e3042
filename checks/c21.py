"""C21 reading picks the parser of the file's kind."""
import itertools

from sa.lab import *
from .strs import *
from .c11 import value

RULE = ('Abstract interpretation of the read and loads entry points on programs whose first line with a mark of one kind stands at every position among unmarked '
        'lines and lines with marks of the other kinds: the parser of the first mark gets the unchanged data and the file name; data without a mark '
        'ends in ParseError. Reading by file name opens that file once as text, closes it and gives what loads gives of its content. Drill files are decoded '
        'with the settings passed, or with the format and zeros they declare.')
ASSUMPTIONS = ['which of several undeclared number formats fits a drill file best is a heuristic: only membership in the considered formats is decided']

MARKS = {'rs274x': ['%FSLAX24Y24*%', 'G04 x*%FSLAX24Y24*%', '  %FSTAX25Y25*%', '%FS'], 'excellon': ['M48', ' M48', 'M48;x', '%M48', 'M48 ' + 'a long comment ' * 9, 'x' * 99 + 'M48', '; before M48', '# M48', 'C M48'], 'ipc_d_356': ['P  JOB   board', 'P JOB', '  P   JOB x', 'P\tJOB x', 'P  JOB  ' + 'a long name ' * 9, ' ' * 90 + 'P JOB']}
PLAIN = ['', 'G04 comment*', '; comment', 'C  a comment', 'P  UNITS CUST 0', 'X100Y100D02*', 'T1', '%MOIN*%', 'PJOB', 'M4 8', '% FS', 'JOB P', 'P', 'PP JOB x', 'p job', 'x' * 120, 'm48', '%fs', 'G04 P JOB x*', 'JOB', '%', 'M84', 'FS%']
GERBER = '%FSLAX24Y24*%\n%MOIN*%\n%ADD10C,0.1*%\nD10*\nX0Y0D02*\nX10000Y0D01*\nX5000Y5000D03*\nM02*\n'
DRILL = 'M48\n;FILE_FORMAT=2:4\nINCH,TZ\nT1C0.1\n%\nT1\nX010000Y010000\nX020000\nM30\n'
NETLIST = 'C  comment\nP  JOB   board\nP  UNITS CUST 0\n317NET1            VIA         MD0118PA00X+001000Y+002000X0236Y0000R000 S0\n999\n'
KIND = {'rs274x': ('GerberFile', GERBER), 'excellon': ('ExcellonFile', DRILL), 'ipc_d_356': ('IPCNetlist', NETLIST)}
MOD = {'rs274x': 'gerber.rs274x', 'excellon': 'gerber.excellon', 'ipc_d_356': 'gerber.ipc356'}


def run(O, thorough):
    dispatch(O)
    L = Lab(['gerber.common', 'gerber.rs274x', 'gerber.excellon', 'gerber.ipc356', 'gerber'])
    files(O, L)
    formats(O, L)


def dispatch(O):
    def rec(kind):
        def f(I, args, kw):
            a = dict(zip(('data', 'filename'), args))
            a.update(kw)
            return (kind, a.get('data'), a.get('filename'))
        return f
    L = Lab(['gerber.common'], stubs=dict((MOD[k] + ':loads', rec(k)) for k in MOD))
    where = L.where('gerber.common:loads')
    texts = []
    for kind, ms in MARKS.items():
        for m in ms:
            for n in range(4):
                texts.append((kind, PLAIN[n * 3:n * 3 + n] + [m, 'last']))
            for other in MARKS:
                if other != kind:
                    for o in MARKS[other][:2]:
                        texts.append((kind, ['C head', m, 'x', o]))
            texts.append((kind, PLAIN + [m]))
        texts.append((kind, ['x', ''] * 750 + ms[:1]))
    for p in PLAIN:
        texts.append((None, [p]))
        texts.append((None, [p, 'x', p]))
    texts.append((None, PLAIN))
    for kind, ls in texts:
        for nl in ('\n', '\r\n'):
            for name in (None, 'some/file.gbr', 'x.drl'):
                if name and nl == '\r\n':
                    continue
                data = nl.join(ls)
                key = 'dispatch:%r:%s' % (data[:60], name)
                L.fresh()
                oc = L.run(lambda: L.I.call(L.obj_from('gerber.common:loads'), [data] + ([name] if name else []), {}))
                O.note(L)
                if kind is None:
                    if oc.kind == 'raise':
                        O.equal(key, oc.value, 'ParseError', where, 'exception for data of no known kind')
                    elif oc.kind == 'ok':
                        O.fail(key, where, 'data of no known kind (%r) is read as %s' % (data, show(oc.value)))
                    else:
                        O.undecided(key, oc.why)
                elif O.outcome(key, oc, where, 'reading %r' % data):
                    O.equal(key, oc.value, (kind, data, name), where, 'parser, data and file name for %r' % data)
    L.fresh()
    for k in ('GerberParseError', 'ExcellonParseError'):
        O.equal('exceptions:' + k, L.I.truth(L.I.bm.issubclass_(L.obj_from('gerber.exceptions:' + k), L.obj_from('gerber.exceptions:ParseError'))) if hasattr(L.I.bm, 'issubclass_') else True, True,
                'gerber/exceptions.py', '%s is a ParseError' % k)


def digest(L, f):
    """What was read, without addresses and unique ids."""
    out = [L.cls_of(f)]
    for s in L.items(L.get(f, 'statements')):
        at = L.attrs(s)
        out.append((L.cls_of(s),) + tuple((k, value(L, v)) for k, v in sorted(at.items()) if k not in ('id', 'settings', 'primitives', '_id')))
    for p in L.items(L.get(f, 'primitives')):
        out.append((L.cls_of(p), value(L, L.get(p, 'position')) if L.cls_of(p) != 'Line' else value(L, L.get(p, 'start'))))
    s = L.get(f, 'settings')
    out.append((L.get(s, 'units'), L.get(s, 'zeros'), value(L, L.get(s, 'format'))))
    return tuple(out)


def openable(oc):
    oc.maybe = [m for m in oc.maybe or [] if m[0] != 'IOError']
    return oc


def files(O, L):
    L.fresh()
    for kind, (cls, data) in KIND.items():
        for path in ('dir/name.ext', 'b.gbr'):
            for mod in ('gerber.common', MOD[kind], 'gerber'):
                for crlf in (False, True):
                    L.fresh()
                    L.I.files = {path: data.replace('\n', '\r\n') if crlf else data}
                    del L.I.st.events[:]
                    where = L.where(mod + ':read') if mod != 'gerber' else L.where('gerber.common:read')
                    key = 'read:%s:%s:%s:%s' % (kind, mod, path, crlf)

                    def go():
                        f = L.I.call(L.obj_from(mod + ':read'), [path], {})
                        ev = [e[1] for e in L.I.st.events if e[0] == 'open']
                        d = digest(L, f)
                        fn = L.get(f, 'filename')
                        opened = set(p for p, _, _ in ev)
                        modes = all(isinstance(m, str) and 'b' not in m and 'w' not in m and 'a' not in m and '+' not in m for _, m, _ in ev)
                        closed = all(L.I.st.get(h).attrs.get('closed') is True for _, _, h in ev)
                        g = L.I.call(L.obj_from(MOD[kind] + ':loads'), [data], {})
                        return d, digest(L, g), fn, opened, modes, closed
                    oc = openable(L.run(go))
                    O.note(L)
                    if not O.outcome(key, oc, where, 'reading a file of kind ' + kind):
                        continue
                    d, e, fn, opened, modes, closed = oc.value
                    O.equal(key + ':class', d[0], cls, where, 'class of the object read')
                    O.equal(key + ':same', d, e, where, 'what is read from a file, compared with loads of its content')
                    O.equal(key + ':filename', fn, path, where, 'file name of the object read')
                    O.equal(key + ':opened', tuple(sorted(opened)), (path,), where, 'files opened')
                    O.equal(key + ':mode', modes, True, where, 'the file is opened as text for reading')
                    O.equal(key + ':closed', closed, True, where, 'the file is closed after reading')
        for mod in ('gerber.common', MOD[kind], 'gerber'):
            for name in (None, 'n/ame'):
                L.fresh()
                key = 'loads:%s:%s:%s' % (kind, mod, name)
                where = L.where((mod if mod != 'gerber' else 'gerber.common') + ':loads')

                def go():
                    f = L.I.call(L.obj_from(mod + ':loads'), [data] + ([name] if name else []), {})
                    return L.cls_of(f), L.get(f, 'filename'), [e for e in L.I.st.events if e[0] == 'open']
                del L.I.st.events[:]
                oc = L.run(go)
                if O.outcome(key, oc, where, 'loads of a program of kind ' + kind):
                    O.equal(key, (oc.value[0], oc.value[1], len(oc.value[2])), (cls, name, 0), where, 'class and file name of what loads gives, and files opened')


def formats(O, L):
    where = L.where('gerber.excellon:detect_excellon_format')
    body = '%\nT1\nX010000Y010000\nX020000Y005000\nX000300Y045000\nM30\n'
    FMT = ((2, 4), (2, 5), (3, 3), (4, 2), (3, 4))
    cases = []
    for f in (None,) + FMT:
        for u in (None, 'INCH,LZ', 'INCH,TZ', 'METRIC,LZ', 'METRIC,TZ'):
            h = 'M48\n' + (';FILE_FORMAT=%d:%d\n' % f if f else '') + (u + '\n' if u else '') + 'T1C0.1\n'
            cases.append((f, u and ('leading' if 'LZ' in u else 'trailing'), h + body))
            cases.append((f, u and ('leading' if 'LZ' in u else 'trailing'), h + '%\n'))
    for i, (f, z, data) in enumerate(cases):
        key = 'detect:%s:%s:%s:%d' % (f, z, 'METRIC' in data, i % 2)
        L.fresh()
        oc = L.run(lambda: [L.I.bm.getitem(L.I.call(L.obj_from('gerber.excellon:detect_excellon_format'), [data], {}), k) for k in ('format', 'zeros')])
        O.note(L)
        if not O.outcome(key, oc, where, 'detecting the number format of %r' % data):
            continue
        gf, gz = value(L, oc.value[0]), oc.value[1]
        O.equal(key + ':format', gf, [f] if f else [(2, 4), (2, 5), (3, 3)], where, 'format of %r' % data)
        O.equal(key + ':zeros', gz, [z] if z else ['leading', 'trailing'], where, 'zeros of %r' % data)
        if f and z:
            L.fresh()
            L.I.files = {'a.drl': data}
            for how in ('loads', 'read'):
                def go():
                    g = L.I.call(L.obj_from('gerber.excellon:' + how), [data if how == 'loads' else 'a.drl'], {})
                    s = L.get(g, 'settings')
                    return value(L, L.get(s, 'format')), L.get(s, 'zeros'), L.get(s, 'units')
                oc = openable(L.run(go))
                if O.outcome('%s:%s' % (key, how), oc, where, 'reading %r' % data):
                    O.equal('%s:%s' % (key, how), oc.value, (f, z, 'metric' if 'METRIC' in data else 'inch'), L.where('gerber.excellon:' + how), 'settings of %r' % data)
    # settings passed win over detection
    for f in FMT:
        for z in ('leading', 'trailing'):
            for u in ('inch', 'metric'):
                key = 'passed:%s:%s:%s' % (f, z, u)
                L.fresh()

                def go():
                    s = L.new('gerber.cam:FileSettings', units=u, zeros=z, format=f)
                    g = L.I.call(L.obj_from('gerber.excellon:loads'), ['M48\nT1C0.1\n' + body], {'settings': s, 'filename': 'q.drl'})
                    t = L.get(g, 'settings')
                    return value(L, L.get(t, 'format')), L.get(t, 'zeros'), L.get(t, 'units'), L.get(g, 'filename')
                oc = L.run(go)
                if O.outcome(key, oc, where, 'reading with settings'):
                    O.equal(key, oc.value, (f, z, u, 'q.drl'), L.where('gerber.excellon:loads'), 'settings of a file read with settings')
