"""C19 aperture macro expressions and variables."""
import itertools

from sa.lab import *
from .strs import *

RULE = ('Abstract interpretation of the macro reader and evaluator on every expression of up to three operators (thorough: four) over the four '
        'operators, in every grouping, written with the fewest parentheses and with full parentheses, with symbolic modifiers as operands. The '
        'value written into the primitive must equal, as a polynomial or rational function of the modifiers, the value of the expression under '
        'the usual precedence (x and / before + and -, left to right).')
ASSUMPTIONS = ['expressions of at most four operators stand for all expressions', 'numerals are drawn from a fixed set of spellings']

PREC = {'+': 1, '-': 1, 'x': 2, '/': 2}


def trees(n):
    """Binary trees with n inner nodes; leaves are numbered left to right."""
    def go(k):
        if k == 0:
            yield None
            return
        for i in range(k):
            for a in go(i):
                for b in go(k - 1 - i):
                    yield (a, b)
    return list(go(n))


def render(t, ops, leaves, full, top=True):
    """(text, value, precedence of the outermost operator); ops and leaves are consumed in order."""
    if t is None:
        txt, v = leaves.pop(0)
        return txt, v, 3
    a = render(t[0], ops, leaves, full, False)
    op = ops.pop(0)
    b = render(t[1], ops, leaves, full, False)
    p = PREC[op]
    ta = '(%s)' % a[0] if a[2] < p or (full and a[2] < 3) else a[0]
    tb = '(%s)' % b[0] if b[2] <= p or (full and b[2] < 3) else b[0]
    return ta + op + tb, calc(op, a[1], b[1]), p


def num_div(a, b):
    return Poly.of(a).div(b)


def calc(op, a, b):
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == 'x':
        return a * b
    return num_div(a, b)


def run(O, thorough):
    L = Lab(['gerber.am_read', 'gerber.am_eval', 'gerber.gerber_statements'])
    M = [sym('m%d' % i, '+') for i in range(1, 7)]
    where = L.where('gerber.am_read:read_macro')

    def primitives(text, mods=None, dict_=False):
        L.fresh()
        ins = L.I.call(L.obj_from('gerber.am_read:read_macro'), [text], {})
        if mods is None:
            args = []
        elif dict_:
            args = [L.I.new_dict([(i + 1, m) for i, m in enumerate(mods)])]
        else:
            args = [L.list(mods)]
        return L.items(L.I.call(L.obj_from('gerber.am_eval:eval_macro'), [ins] + args, {}))

    def check(key, text, want, mods=M, dict_=False):
        """want: list of (code, [values])."""
        oc = L.run(lambda: primitives(text, mods, dict_))
        O.note(L)
        if not O.outcome(key, oc, where, 'macro %r' % text):
            return
        got = oc.value
        if len(got) != len(want):
            O.fail(key, where, 'macro %r gives %d primitives, expected %d' % (text, len(got), len(want)))
            return
        for i, (g, (code, vals)) in enumerate(zip(got, want)):
            fs = fields(g) if isinstance(g, (str, SStr)) else None
            if fs is None:
                O.undecided(key, 'primitive %d is %s' % (i, show(g)))
                return
            if len(fs) != len(vals) + 1:
                O.fail(key, where, 'macro %r: primitive %d is written as %s, expected %d values' % (text, i, show(g), len(vals)))
                return
            O.equal('%s:%d:code' % (key, i), fs[0], str(code), where, 'code of primitive %d of macro %r' % (i, text))
            for j, (f, v) in enumerate(zip(fs[1:], vals)):
                n = number(f)
                kk = '%s:%d:%d' % (key, i, j)
                if isinstance(v, str):
                    O.equal(kk, f, v, where, 'text %d of primitive %d of macro %r' % (j, i, text))
                elif n is None:
                    O.undecided(kk, 'value %d is written as %s' % (j, show(f)))
                else:
                    O.equal(kk, n, v, where, 'value %d of primitive %d of macro %r' % (j, i, text))

    # every expression
    for n in (1, 2, 3, 4) if thorough else (1, 2, 3):
        for ti, t in enumerate(trees(n)):
            for ops in itertools.product('+-x/', repeat=n):
                for full in (False, True):
                    leaves = [('$%d' % (i + 1), M[i]) for i in range(n + 1)]
                    txt, v, _ = render(t, list(ops), leaves, full)
                    check('expr:%s' % txt, '1,1,%s,%s*' % (txt, txt), [(1, [1.0, v, v])])
    # operators written X, numerals, spaces and line breaks
    for txt, v in (('$1X$2', M[0] * M[1]), ('$1+$2X$3', M[0] + M[1] * M[2]), ('$1X($2-$3)', M[0] * (M[1] - M[2])), ('$1/$2X$3', num_div(M[0], M[1]) * M[2]),
                   ('($1)', M[0]), ('(($1))', M[0]), ('(($1+$2))x2', (M[0] + M[1]) * 2), ('(-$1)', -M[0]), ('-$1', -M[0]), ('-$1+$2', M[1] - M[0]),
                   ('-$1x$2', -(M[0] * M[1])), ('-($1+$2)', -(M[0] + M[1])), ('$1x(-$2)', -(M[0] * M[1])), ('$1-(-2)', M[0] + 2), ('$1+(-2x$2)', M[0] - M[1] * 2),
                   ('$1-2', M[0] - 2), ('-2', -2.0), ('-2+$1', M[0] - 2), ('-.5', -0.5), ('-0.5', -0.5), ('-2x$1', M[0] * -2), ('$1x-2', None), ('0', 0.0), ('0.', 0.0),
                   ('0.25', 0.25), ('.25', 0.25), ('2.', 2.0), ('10', 10.0), ('10.05', 10.05), ('100', 100.0), ('1.0', 1.0), ('0.001', 0.001), ('3.14159', 3.14159),
                   ('$1+0', M[0]), ('0+$1', M[0]), ('0-$1', -M[0]), ('$1-0.5', M[0] - 0.5), ('2x$1', M[0] * 2), ('$1/2', M[0] * 0.5), ('1/$1', num_div(1.0, M[0])),
                   ('$1 + $2', M[0] + M[1]), (' $1 - $2 ', M[0] - M[1]), ('$1\n+$2', M[0] + M[1]), ('$1 x 2', M[0] * 2), ('( $1 - $2 ) / 2', (M[0] - M[1]) * 0.5),
                   ('$6-$5-$4-$3-$2-$1', M[5] - M[4] - M[3] - M[2] - M[1] - M[0]), ('$1/$2/$3', num_div(num_div(M[0], M[1]), M[2]))):
        if v is None:
            continue
        for pos in (0, 1, 2):
            vals = [1.0, 2.5, 3.5]
            txts = ['1', '2.5', '3.5']
            vals[pos], txts[pos] = v, txt
            check('form:%s@%d' % (txt, pos), '21,%s*' % ','.join(txts), [(21, vals)])
        check('form:%s=eq' % txt, '$5=%s*1,1,$5*' % txt, [(1, [1.0, v])])
    # modifiers: list or dictionary, two digit numbers, missing ones
    many = [sym('k%d' % i, '+') for i in range(1, 13)]
    for d in (False, True):
        t = 'dict' if d else 'list'
        check('modifiers:%s' % t, '4,1,$1,$2,$3,$10,$11,$12*', [(4, [1.0, many[0], many[1], many[2], many[9], many[10], many[11]])], many, d)
        check('missing:%s' % t, '1,1,$9,$9+$1*', [(1, [1.0, 0.0, M[0]])], M, d)
    check('no modifiers', '1,1,$1*', [(1, [1.0, 0.0])], [])
    check('modifiers omitted', '1,1,2.5*', [(1, [1.0, 2.5])], None)
    # variables: visible to the blocks after the definition, redefinable, from one another
    for mtext, want in (
            ('$4=$1x2*1,1,$4,$1*', [(1, [1.0, M[0] * 2, M[0]])]),
            ('$7=$1+$2*$8=$7x$7*1,1,$7,$8*', [(1, [1.0, M[0] + M[1], (M[0] + M[1]) * (M[0] + M[1])])]),
            ('1,1,$1*$1=$1x2*1,1,$1*$1=$1x2*1,1,$1*', [(1, [1.0, M[0]]), (1, [1.0, M[0] * 2]), (1, [1.0, M[0] * 4])]),
            ('$9=1.5*21,1,$9,$1,0,0,0*', [(21, [1.0, 1.5, M[0], 0.0, 0.0, 0.0])]),
            ('$12=$1-$2*20,1,$12,0,0,1,1,-45*', [(20, [1.0, M[0] - M[1], 0.0, 0.0, 1.0, 1.0, -45.0])]),
            ('$1=$2*$2=$1*1,1,$1,$2*', [(1, [1.0, M[1], M[1]])]),
            ('\n$7=$1*\n1,1,$7*\n2,0,$7*', [(1, [1.0, M[0]]), (2, [0.0, M[0]])])):
        check('variables:%s' % mtext, mtext, want)
    # one primitive per block, in order, for every code
    codes = [1, 2, 20, 21, 22, 4, 5, 6, 7]
    check('codes', ''.join('%d,1,$%d*' % (c, i % 6 + 1) for i, c in enumerate(codes)), [(c, [1.0, M[i % 6]]) for i, c in enumerate(codes)])
    check('codes/no last star', '1,1,$1*5,0,$2', [(1, [1.0, M[0]]), (5, [0.0, M[1]])])
    # comments carry no value and disturb nothing
    for c in ('plain comment', 'a=2', 'x + y', '$1', '1,2,3', 'Rounded (rect)', '$4=$1'):
        for first in (True, False):
            m = ('0 %s*1,1,$1,$4*' if first else '1,1,$1,$4*0 %s*') % c
            key = 'comment:%s:%s' % (c, 'first' if first else 'last')
            oc = L.run(lambda: primitives(m, M[:3]))
            if O.outcome(key, oc, where, 'macro %r' % m):
                got = [g for g in oc.value if not (isinstance(g, str) and g.startswith('0'))]
                if len(oc.value) != 2 or len(got) != 1:
                    O.fail(key, where, 'macro %r gives %s' % (m, show(tuple(oc.value))))
                    continue
                fs = fields(got[0])
                O.equal(key, tuple(number(f) for f in fs), (1.0, 1.0, M[0], 0.0), where, 'primitive of macro %r' % m)
                com = [g for g in oc.value if isinstance(g, str) and g.startswith('0')]
                O.equal(key + ':text', com[0] if com else None, '0,' + c, where, 'comment of macro %r' % m)
    independence(O, L, M)


def independence(O, L, M):
    """Evaluations do not influence one another nor the caller's modifiers."""
    where = L.where('gerber.am_eval:eval_macro')
    txt = '$1=$1x2*$3=$2*1,1,$1,$3*'
    for d in (False, True):
        for k in (0, 1, 2):
            key = 'independent:%s:%d' % ('dict' if d else 'list', k)
            L.fresh()
            box = {}

            def go():
                ins = L.I.call(L.obj_from('gerber.am_read:read_macro'), [txt], {})
                ev = L.obj_from('gerber.am_eval:eval_macro')
                m = L.I.new_dict([(i + 1, v) for i, v in enumerate(M[:k])]) if d else L.list(M[:k])
                b = vkeys(L, m)
                box['1'] = L.items(L.I.call(ev, [ins, m], {}))
                box['same'] = b == vkeys(L, m)
                box['2'] = L.items(L.I.call(ev, [ins, m], {}))
                box['3'] = L.items(L.I.call(ev, [ins], {}))
                box['4'] = L.items(L.I.call(ev, [ins, L.list([M[4], M[5]])], {}))
                box['5'] = L.items(L.I.call(ev, [ins], {}))
            oc = L.run(go)
            O.note(L)
            if not O.outcome(key, oc, where, 'evaluating a macro repeatedly'):
                continue
            if box['same']:
                O.ok(key + ':caller')
            else:
                O.fail(key + ':caller', where, "evaluating a macro changes the caller's modifiers")

            def want(ms):
                g = lambda i: ms[i] if i < len(ms) else 0.0
                return (1.0, 1.0, g(0) * 2, g(1))
            for n, ms in (('1', M[:k]), ('2', M[:k]), ('3', []), ('4', [M[4], M[5]]), ('5', [])):
                O.equal('%s:%s' % (key, n), tuple(number(f) for f in fields(box[n][0])), want(ms), where, 'evaluation %s of macro %r' % (n, txt))


def vkeys(L, m):
    return L.snapshot([m])
