"""C14 the coordinate number codec."""
from sa.lab import *
from sa.oblig import norm
from sa.par import parallel
from .strs import *

RULE = ('Abstract interpretation of parse_gerber_value, write_gerber_value and decimal_string on numbers made of labelled decimal digits, for every '
        'number format, both zero suppressions and none, both signs and every position of the first and last nonzero digit: the text written must be '
        'the digits of the number with exactly the suppressed zeros left out, and reading any digit text must give the sum of its digits times the '
        'powers of ten the format assigns to them.')
ASSUMPTIONS = ['binary rounding of decimal fractions is neglected: at most 13 digits are in play, fewer than a double carries']


def fixed(v, pattern):
    """The value with every digit symbol replaced by a digit of the pattern
    (cyclically, by its number in the label)."""
    import re

    def d(label):
        n = int(re.search(r'\d+', label).group())
        return pattern[n % len(pattern)]
    if isinstance(v, Poly):
        from fractions import Fraction
        r = Fraction(0)
        for m, c in v.terms.items():
            r += Fraction('%.12g' % c) * (int(d(m[0][0])) if m else 1)
        return float(r)
    if isinstance(v, SStr):
        return ''.join(q if isinstance(q, str) else d(q.label) for q in v.parts)
    return v


def run(O, thorough):
    L = Lab(['gerber.utils'])
    U = 'gerber.utils:'
    wp, ww, wd = L.where(U + 'parse_gerber_value'), L.where(U + 'write_gerber_value'), L.where(U + 'decimal_string')
    if thorough:
        fmts = [(i, d) for i in range(0, 7) for d in range(0, 8) if i + d]
    else:
        fmts = [(2, 3), (2, 4), (2, 5), (2, 6), (3, 3), (3, 4), (3, 6), (4, 2), (4, 4), (1, 5), (5, 4), (6, 6), (6, 7), (0, 6), (4, 0), (1, 1)]

    def value(cells):
        """{exponent: hole or digit char} -> number"""
        r = 0.0
        for k, h in cells.items():
            r = r + (float(h) if isinstance(h, str) else h.val) * 10.0 ** k
        return r

    def call(fn, *a, **k):
        return L.I.call(L.obj_from(U + fn), list(a), k)

    def same(key, fn, args, kw, want, where, what):
        """When the value is not determined for all digits at once, the
        digits are fixed to look for a failing case."""
        n0 = len(O.undec)
        L.fresh()
        oc = L.run(lambda: call(fn, *args, **kw))
        if O.outcome(key, oc, where, what):
            O.equal(key, oc.value, want, where, what)
        if len(O.undec) == n0:
            return
        for fix in ('1', '9', '5', '37', '218'):
            a, w = [fixed(x, fix) for x in args], fixed(want, fix)
            L.fresh()
            oc = L.run(lambda: call(fn, *a, **kw))
            if oc.maybe or oc.kind == 'undecided':
                continue
            if oc.kind == 'raise':
                O.fail(key, where, '%s: %s(%s) raises %s instead of giving %s' % (what, fn, show(a[0]), oc.value, show(w)))
            elif isinstance(oc.value, (int, float, str)) and equiv(norm(oc.value), norm(w)) is False:
                O.fail(key, where, '%s: %s(%s) is %s, expected %s' % (what, fn, show(a[0]), show(oc.value), show(w)))
            if key in O.done and O.done[key][0] == 'FAIL':
                del O.undec[n0:]
                return

    def one(job):
        (i, d), zs = job
        n = i + d
        for neg in (False, True):
            sg = ['-'] if neg else []
            for p in range(n):            # first nonzero digit, counted from the left
                for q in range(p, n):
                    cells = []
                    for c in range(n):
                        cells.append('0' if c < p or c > q else dig('d%d%s' % (c, 'n' if c in (p, q) else ''), nonzero=c in (p, q)))
                    v = value(dict((i - 1 - c, h) for c, h in enumerate(cells) if h != '0'))
                    if neg:
                        v = v * -1.0
                    body = cells[p:] if zs == 'leading' else cells[:q + 1] if zs == 'trailing' else cells
                    txt = text(*(sg + body))
                    name = '%d:%d %s %s%d-%d' % (i, d, zs, '-' if neg else '', p, q)
                    same('write ' + name, 'write_gerber_value', (v, (i, d), zs), {}, txt, ww, 'text of %s in format %d:%d, %s zeros left out' % (show(v), i, d, zs))
                    same('read ' + name, 'parse_gerber_value', (txt, (i, d), zs), {}, v, wp, 'value of %s in format %d:%d, %s zeros left out' % (show(txt), i, d, zs))
                    if not neg:
                        same('read + ' + name, 'parse_gerber_value', (text('+', *body), (i, d), zs), {}, v, wp, 'value of +%s' % show(txt))
            # any digits, also with zeros that could have been left out
            for m in range(1, n + 1):
                if zs == 'none' and m != n:
                    continue
                hs = [dig('a%d' % c) for c in range(m)]
                top = i - 1 if zs != 'leading' else m - d - 1
                v = value(dict((top - c, h) for c, h in enumerate(hs)))
                same('digits %d:%d %s %s%d' % (i, d, zs, '-' if neg else '', m), 'parse_gerber_value', (text(*(sg + hs)), (i, d), zs), {}, v * -1.0 if neg else v, wp,
                     'value of %d digits in format %d:%d, %s zeros left out' % (m, i, d, zs))
            # explicit decimal point: the format does not matter
            for a in range(0, 4):
                for b in range(0, 4):
                    if a + b == 0:
                        continue
                    hs = [dig('a%d' % c) for c in range(a)] + ['.'] + [dig('b%d' % c) for c in range(b)]
                    v = value(dict([(a - 1 - c, hs[c]) for c in range(a)] + [(-1 - c, hs[a + 1 + c]) for c in range(b)]))
                    same('point %d:%d %s %s%d.%d' % (i, d, zs, '-' if neg else '', a, b), 'parse_gerber_value', (text(*(sg + hs)), (i, d), zs), {}, v * -1.0 if neg else v, wp,
                         'value of a number with a decimal point')
        for z in (0, 0.0, -0.0, 4e-9, -4e-9):
            same('zero %d:%d %s %r' % (i, d, zs, z), 'write_gerber_value', (z, (i, d), zs), {}, '0', ww, 'text of %r' % z)
        for t in ('0', '+0', '-0', '0' * n):
            same('zero %d:%d %s %s' % (i, d, zs, t), 'parse_gerber_value', (t, (i, d), zs), {}, 0.0, wp, 'value of %s' % t)
        O.note(L)
    parallel(O, [(f, zs) for f in sorted(fmts, key=lambda f: -sum(f)) for zs in ('leading', 'trailing', 'none')], one)

    for fmt in ((7, 5), (5, 8), (7, 7), (6, 8)):
        for fn, v, w in (('parse_gerber_value', '123', wp), ('write_gerber_value', 1.5, ww)):
            L.fresh()
            oc = L.run(lambda: call(fn, v, fmt, 'leading'))
            k = 'limit %s %s' % (fn, fmt)
            if oc.kind == 'raise' and oc.value == 'ValueError':
                O.ok(k)
            elif oc.kind == 'undecided':
                O.undecided(k, oc.why)
            else:
                O.fail(k, w, '%s accepts the format %s, which it cannot represent' % (fn, fmt))
    # decimal strings
    for a in range(1, 5):
        for b in range(0, 7):
            for prec in (2, 3, 4, 6):
                for padding in (False, True):
                    hs = [dig('i%d' % c, nonzero=c == 0) for c in range(a)]
                    fs = [dig('f%d' % c, nonzero=c == b - 1) for c in range(b)]
                    for neg in (False, True):
                        for lead in (False, True):
                            ih = ['0'] if lead else hs
                            if lead and (a > 1 or b == 0):
                                continue
                            ff = fs
                            if lead:
                                ff = [dig('f%d' % c, nonzero=c in (0, b - 1)) for c in range(b)]
                            v = value(dict([(len(ih) - 1 - c, h) for c, h in enumerate(ih) if h != '0'] + [(-1 - c, h) for c, h in enumerate(ff)]))
                            v = v * -1.0 if neg else v
                            dec = ff[:prec] if ff else ['0']
                            if padding:
                                dec = dec + ['0'] * (prec - len(dec))
                            want = text(*((['-'] if neg else []) + ih + ['.'] + dec))
                            same('decimal %s%s.%d prec %d%s%s' % ('-' if neg else '', '0' if lead else a, b, prec, ' padded' if padding else '', ''),
                                 'decimal_string', (v,), dict(precision=prec, padding=padding), want, wd, 'decimal string of %s' % show(v))
    for v, prec, padding, want in ((0.00002, 6, False, ['0.00002', '0.000020']), (0.00002, 5, False, '0.00002'), (0.000123, 6, True, '0.000123'), (-0.00005, 6, True, '-0.000050'), (1.5e-07, 4, True, '0.0000'),
                                   (-0.00012, 4, True, '-0.0001'), (12345678901.0, 3, True, '12345678901.000'), (0.1, 6, True, '0.100000'), (100, 4, True, '100.0000'), (1e-05, 6, True, '0.000010')):
        same('decimal %r prec %d%s' % (v, prec, ' padded' if padding else ''), 'decimal_string', (v,), dict(precision=prec, padding=padding), want, wd, 'decimal string of %r' % v)
    O.note(L)
