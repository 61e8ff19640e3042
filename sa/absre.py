"""Regular-expression matching on string shapes.

A result is returned only when it holds for every instance of the shape;
otherwise Unknown is raised."""

import re as _re
try:
    import re._parser as sre_parse
    import re._constants as sc
except ImportError:            # Python < 3.11
    import sre_parse
    import sre_constants as sc

from .values import *

UNIVERSE = frozenset(chr(i) for i in range(256))
WORD = frozenset(c for c in UNIVERSE if c.isalnum() and ord(c) < 128 or c == '_')
DIG = frozenset('0123456789')
SPACE = frozenset(' \t\n\r\x0b\x0c')


class Unknown(Exception):
    pass


def cat(c):
    return {sc.CATEGORY_DIGIT: DIG, sc.CATEGORY_NOT_DIGIT: UNIVERSE - DIG, sc.CATEGORY_WORD: WORD,
            sc.CATEGORY_NOT_WORD: UNIVERSE - WORD, sc.CATEGORY_SPACE: SPACE, sc.CATEGORY_NOT_SPACE: UNIVERSE - SPACE}[c]


def charset(op, av, flags):
    """Set of characters matched by a single-character node, or None."""
    if op is sc.LITERAL:
        s = {chr(av)}
    elif op is sc.NOT_LITERAL:
        s = UNIVERSE - {chr(av)}
        return s
    elif op is sc.ANY:
        return UNIVERSE if flags & _re.S else UNIVERSE - {'\n'}
    elif op is sc.IN:
        s = set()
        negate = False
        for o, v in av:
            if o is sc.NEGATE:
                negate = True
            elif o is sc.LITERAL:
                s.add(chr(v))
            elif o is sc.RANGE:
                s |= set(chr(i) for i in range(v[0], min(v[1], 255) + 1))
            elif o is sc.CATEGORY:
                s |= cat(v)
            else:
                raise Unknown('class %s' % o)
        if flags & _re.I:
            s |= set(c.lower() for c in s) | set(c.upper() for c in s)
        return UNIVERSE - s if negate else frozenset(s)
    elif op is sc.CATEGORY:
        return cat(av)
    else:
        return None
    if flags & _re.I:
        s |= set(c.lower() for c in s) | set(c.upper() for c in s)
    return frozenset(s)


def suffix_hole(h):
    return Hole(h.label + '~', h.chars, 1, h.maxlen)


class Matcher(object):
    def __init__(self, flags):
        self.flags = flags
        self.steps = 0

    def m(self, nodes, k, toks, i, groups, cont):
        """Match nodes[k:] at token i; cont(toks, i, groups) -> result|None."""
        self.steps += 1
        if self.steps > 200000:
            raise Unknown('regex budget')
        if k == len(nodes):
            return cont(toks, i, groups)
        op, av = nodes[k]
        nxt = lambda t, j, g: self.m(nodes, k + 1, t, j, g, cont)
        cs = charset(op, av, self.flags)
        if cs is not None:
            return self.one(cs, toks, i, groups, nxt)
        if op is sc.SUBPATTERN:
            gid, add, rem, sub = av
            if gid is None:
                return self.m(list(sub), 0, toks, i, groups, nxt)

            def close(t, j, g):
                g2 = dict(g)
                g2[gid] = (i, j, t)
                return nxt(t, j, g2)
            return self.m(list(sub), 0, toks, i, groups, close)
        if op is sc.BRANCH:
            for alt in av[1]:
                r = self.m(list(alt), 0, toks, i, groups, nxt)
                if r is not None:
                    return r
            return None
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            hi = None if hi is sc.MAXREPEAT else hi
            if len(sub) == 1:
                cs = charset(sub[0][0], sub[0][1], self.flags)
                if cs is not None:
                    return self.rep_set(cs, lo, hi, op is sc.MAX_REPEAT, toks, i, 0, 0, groups, nxt)
            return self.rep(sub, lo, hi, op is sc.MAX_REPEAT, toks, i, 0, groups, nxt)
        if op is sc.AT:
            return nxt(toks, i, groups) if self.at(av, toks, i) else None
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            d, sub = av
            if d < 0:
                raise Unknown('lookbehind')
            r = self.m(list(sub), 0, toks, i, groups, lambda t, j, g: (t, j, g))
            if (r is not None) != (op is sc.ASSERT):
                return None
            return nxt(toks, i, groups)
        raise Unknown('regex node %s' % op)

    def at(self, av, toks, i):
        if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            return i == 0
        if av in (sc.AT_END, sc.AT_END_STRING):
            if i == len(toks):
                return True
            if av is sc.AT_END and i == len(toks) - 1 and toks[i] == '\n':
                return True
            if all(not isinstance(x, str) and x.minlen == 0 for x in toks[i:]):
                raise Unknown('possibly empty tail')
            return False
        if av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
            def kind(x):
                if x is None:
                    return False
                s = {x} if isinstance(x, str) else x.chars
                if s <= WORD:
                    return True
                if not (s & WORD):
                    return False
                raise Unknown('boundary at hole')
            b = kind(toks[i - 1] if i else None) != kind(toks[i] if i < len(toks) else None)
            return b == (av is sc.AT_BOUNDARY)
        raise Unknown('anchor %s' % av)

    def one(self, cs, toks, i, groups, nxt):
        if i >= len(toks):
            return None
        x = toks[i]
        if isinstance(x, str):
            return nxt(toks, i + 1, groups) if x in cs else None
        if x.minlen == 0:
            r = nxt_without(self, cs, toks, i, groups, nxt)
            return r
        if not (x.first & cs):
            return None
        if x.minlen == x.maxlen == 1:
            if x.chars <= cs:
                return nxt(toks, i + 1, groups)
            raise Unknown('char class splits hole')
        # consumes one character of a longer hole
        if not (x.first <= cs):
            raise Unknown('char class splits hole')
        rest = Hole(x.label + '[1:]', x.chars, x.minlen - 1, None if x.maxlen is None else x.maxlen - 1)
        first = Hole(x.label + '[0]', x.first, 1, 1)
        t2 = toks[:i] + (first, rest) + toks[i + 1:]
        return nxt(t2, i + 1, groups)

    def rep_set(self, cs, lo, hi, greedy, toks, i, n, nmax, groups, nxt):
        """Repeat of a single-character class; n/nmax: least/most characters consumed."""
        def stop():
            if n >= lo:
                return nxt(toks, i, groups)
            if nmax >= lo and nmax > n:
                raise Unknown('repeat count')
            return None

        def go():
            if i >= len(toks) or (hi is not None and n >= hi):
                return None
            x = toks[i]
            if isinstance(x, str):
                if x not in cs:
                    return None
                return self.rep_set(cs, lo, hi, greedy, toks, i + 1, n + 1, nmax + 1, groups, nxt)
            if not (x.first & cs) and x.minlen > 0:
                return None
            if not (x.chars & cs):
                if x.minlen == 0:
                    # empty hole: skip it
                    raise Unknown('possibly empty hole')
                return None
            if not (x.chars <= cs):
                raise Unknown('repeat class splits hole %s' % x.label)
            if hi is not None and (x.maxlen is None or nmax + x.maxlen > hi):
                raise Unknown('hole longer than bounded repeat')
            mx = 10 ** 6 if x.maxlen is None else x.maxlen
            r = self.rep_set(cs, lo, hi, greedy, toks, i + 1, n + x.minlen, nmax + mx, groups, nxt)
            if r is None and (x.maxlen is None or x.maxlen > 1):
                # partial give-back must not be able to match either
                t2 = toks[:i] + (Hole(x.label + '~0', x.chars, 0, x.maxlen), suffix_hole(x)) + toks[i + 1:]
                try:
                    r2 = nxt(t2, i + 1, groups)
                except Unknown:
                    raise
                if r2 is not None:
                    raise Unknown('match splits hole %s' % x.label)
            return r
        if greedy:
            r = go()
            return r if r is not None else stop()
        r = stop()
        return r if r is not None else go()

    def rep(self, sub, lo, hi, greedy, toks, i, n, groups, nxt):
        def more():
            if hi is not None and n >= hi:
                return None

            def again(t, j, g):
                if j == i:
                    # an empty repetition is the last one, its groups count
                    return nxt(t, j, g)
                return self.rep(sub, lo, hi, greedy, t, j, n + 1, g, nxt)
            return self.m(sub, 0, toks, i, groups, again)

        def stop():
            return nxt(toks, i, groups) if n >= lo else None
        if greedy:
            r = more()
            return r if r is not None else stop()
        r = stop()
        return r if r is not None else more()


def nxt_without(self, cs, toks, i, groups, nxt):
    raise Unknown('possibly empty hole')


_CACHE = {}


def parsed(pattern, flags):
    k = (pattern, flags)
    if k not in _CACHE:
        p = _re.compile(pattern, flags)
        _CACHE[k] = (list(sre_parse.parse(pattern, flags)), p.flags, p.groups, dict(p.groupindex))
    return _CACHE[k]


def match(pattern, flags, s, mode='match', start=0):
    tree, fl, ng, names = parsed(pattern, flags)
    tk = tuple(toks(s))
    for st in range(start, len(tk) + 1):
        mt = Matcher(fl)

        def done(t, j, g):
            if mode == 'fullmatch' and j != len(t):
                return None
            return (t, j, g)
        r = mt.m(tree, 0, tk, st, {}, done)
        if r is not None:
            t, j, g = r
            groups = {0: SStr(t[st:j]).simp()}
            for k in range(1, ng + 1):
                if k in g:
                    a, b, tt = g[k]
                    groups[k] = SStr(merge_split(t[a:b])).simp()
                else:
                    groups[k] = None
            mv = MatchV(groups, names, ng)
            mv.string = s
            mv.ends = {}
            # positions are known only in constant-length prefixes
            if all(isinstance(x, str) for x in t[:j]):
                mv.ends[0] = (st, j)
            else:
                mv.ends[0] = (len_of(t[:st]), len_of(t[:j]))
            mv.rest = SStr(merge_split(t[j:])).simp()
            mv.endpos_tokens = t[j:]
            return mv
        if mode != 'search':
            return None
        if st < len(tk) and not isinstance(tk[st], str):
            # a match might begin inside the hole
            h = tk[st]
            if h.maxlen is None or h.maxlen > 1:
                t2 = tk[:st] + (Hole(h.label + '~0', h.chars, 1, h.maxlen), suffix_hole(h)) + tk[st + 1:]
                if Matcher(fl).m(tree, 0, t2, st + 1, {}, done) is not None:
                    raise Unknown('search may start inside hole')
    return None


def merge_split(t):
    """Re-join a hole that was split into first char and rest."""
    out = []
    for x in t:
        if out and not isinstance(x, str) and not isinstance(out[-1], str) and out[-1].label + '' == x.label[:-4] + '[0]' and x.label.endswith('[1:]'):
            h = out.pop()
            base = x.label[:-4]
            out.append(Hole(base, h.chars | x.chars, x.minlen + 1, None if x.maxlen is None else x.maxlen + 1, first=h.first))
        else:
            out.append(x)
    return out


def len_of(t):
    n = 0
    for x in t:
        if isinstance(x, str):
            n += 1
        elif x.minlen == x.maxlen:
            n += x.minlen
        else:
            n = app('len', Hole(x.label, x.chars), sign='0+', isint=True) + n
    return n


def occurrences(pattern, flags, s):
    """([gap0, (match, groups), gap1, ...]) of the non-overlapping matches, left to right."""
    tree, fl, ng, names = parsed(pattern, flags)
    tk = tuple(toks(s))
    out, gap, st = [], [], 0
    while st <= len(tk):
        mt = Matcher(fl)
        r = mt.m(tree, 0, tk, st, {}, lambda t, j, g: (t, j, g))
        if r is not None:
            t, j, g = r
            if j == st:
                raise Unknown('empty match')
            groups = [SStr(merge_split(t[st:j])).simp()]
            for k in range(1, ng + 1):
                groups.append(SStr(merge_split(g[k][2][g[k][0]:g[k][1]])).simp() if k in g else None)
            out += [SStr(merge_split(gap)).simp(), groups]
            gap, tk, st = [], t, j
            continue
        if st == len(tk):
            break
        h = tk[st]
        if not isinstance(h, str) and (h.maxlen is None or h.maxlen > 1):
            t2 = tk[:st] + (Hole(h.label + '~0', h.chars, 1, h.maxlen), suffix_hole(h)) + tk[st + 1:]
            if Matcher(fl).m(tree, 0, t2, st + 1, {}, lambda t, j, g: (t, j, g)) is not None:
                raise Unknown('match may start inside hole')
        gap.append(h)
        st += 1
    out.append(SStr(merge_split(gap)).simp())
    return out


def findall(pattern, flags, s):
    oc = occurrences(pattern, flags, s)
    return [m[0] if len(m) == 1 else ('' if m[1] is None else m[1]) if len(m) == 2 else tuple('' if x is None else x for x in m[1:]) for m in oc[1::2]]


def split(pattern, flags, s):
    out = []
    for i, x in enumerate(occurrences(pattern, flags, s)):
        if i % 2:
            out += x[1:]
        else:
            out.append(x)
    return out


def sub(pattern, flags, repl, s):
    if '\\' in repl:
        raise Unknown('group reference in replacement')
    out = []
    for i, x in enumerate(occurrences(pattern, flags, s)):
        y = repl if i % 2 else x
        out += [y] if isinstance(y, str) else list(y.parts)
    return SStr(out).simp()
