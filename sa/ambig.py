"""Exponential ambiguity of regular expressions.

A backtracking matcher takes exponential time on some text exactly if a repetition of the pattern can match some
word in two ways and come back to the same place (the position automaton has a state with two different paths to
itself on one word), and the match can fail afterwards.
"""
import re
try:
    from re import _parser as sre_parse, _constants as C
except ImportError:
    import sre_parse
    import sre_constants as C

ALPHABET = frozenset(chr(c) for c in range(128)) | frozenset('\u00e9\u2019')
REPEATS = (C.MAX_REPEAT, C.MIN_REPEAT) + ((C.POSSESSIVE_REPEAT,) if hasattr(C, 'POSSESSIVE_REPEAT') else ())


class Unsupported(Exception):
    pass


def category(av):
    n = str(av)
    pat = {'CATEGORY_DIGIT': r'\d', 'CATEGORY_NOT_DIGIT': r'\D', 'CATEGORY_SPACE': r'\s', 'CATEGORY_NOT_SPACE': r'\S',
           'CATEGORY_WORD': r'\w', 'CATEGORY_NOT_WORD': r'\W'}.get(n)
    if pat is None:
        raise Unsupported(n)
    return frozenset(c for c in ALPHABET if re.match(pat, c))


def fold(cs, flags):
    if flags & re.I:
        cs = frozenset(x for c in cs for x in (c, c.lower(), c.upper()))
    return cs & ALPHABET


def chars(op, av, flags):
    if op is C.LITERAL:
        return fold(frozenset([chr(av)]), flags)
    if op is C.NOT_LITERAL:
        return ALPHABET - fold(frozenset([chr(av)]), flags)
    if op is C.ANY:
        return ALPHABET if flags & re.S else ALPHABET - frozenset('\n')
    if op is C.IN:
        out, neg = frozenset(), False
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                out |= frozenset([chr(a)])
            elif o is C.RANGE:
                out |= frozenset(c for c in ALPHABET if a[0] <= ord(c) <= a[1])
            elif o is C.CATEGORY:
                out |= category(a)
            else:
                raise Unsupported(str(o))
        out = fold(out, flags)
        return ALPHABET - out if neg else out
    return None


class Auto(object):
    """Position automaton: sets of characters per position, and how often one position follows another."""

    def __init__(self, pattern, flags):
        self.cs = []
        self.follow = {}         # (p, q) -> number of ways
        self.guarded = False     # conditions were left out
        p = re.compile(pattern, flags)
        tree = sre_parse.parse(pattern, flags)
        self.flags = p.flags
        self.first, self.last, self.null = self.seq(list(tree))

    def link(self, last, first):
        for p, m in last.items():
            for q, n in first.items():
                self.follow[p, q] = min(2, self.follow.get((p, q), 0) + m * n)

    def seq(self, nodes):
        first, last, null = {}, {}, True
        for op, av in nodes:
            f, l, n = self.node(op, av)
            self.link(last, f)
            if null:
                first = add(first, f)
            last = add(l, last) if n else l
            null = null and n
        return first, last, null

    def node(self, op, av):
        cs = chars(op, av, self.flags)
        if cs is not None:
            k = len(self.cs)
            self.cs.append(cs)
            return {k: 1}, {k: 1}, False
        if op is C.SUBPATTERN:
            return self.seq(list(av[-1]))
        if hasattr(C, 'ATOMIC_GROUP') and op is C.ATOMIC_GROUP:
            return self.seq(list(av))
        if op is C.BRANCH:
            first, last, null = {}, {}, False
            for b in av[1]:
                f, l, n = self.seq(list(b))
                first, last, null = add(first, f), add(last, l), null or n
            return first, last, null
        if op is C.AT:
            return {}, {}, True
        if op in (C.ASSERT, C.ASSERT_NOT):       # a condition only: what it excludes is not used
            self.guarded = True
            self.seq(list(av[1]))
            return {}, {}, True
        if op in REPEATS:
            lo, hi, sub = av
            sub = list(sub)
            many = hi is C.MAXREPEAT or hi > 25
            copies = max(lo, 1) if many else hi
            copies = min(copies, 6)
            if not copies:
                return {}, {}, True
            first, last, null = {}, {}, True
            for k in range(copies):
                f, l, n = self.seq(sub)
                if k >= lo:
                    n = True
                if many and k == copies - 1:
                    self.link(l, f)
                self.link(last, f)
                if null:
                    first = add(first, f)
                last = add(l, last) if n else l
                null = null and n
            return first, last, null
        raise Unsupported(str(op))


def add(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = min(2, out.get(k, 0) + v)
    return out


def exponential(pattern, flags=0):
    """A character on which the repetition is ambiguous, or None."""
    a = Auto(pattern, flags)
    succ = {}
    for (p, q), n in a.follow.items():
        succ.setdefault(p, []).append((q, n))
    # only positions on cycles matter
    reach = {}

    def reachable(p):
        if p not in reach:
            seen, todo = set(), [p]
            while todo:
                for q, _ in succ.get(todo.pop(), ()):
                    if q not in seen:
                        seen.add(q)
                        todo.append(q)
            reach[p] = seen
        return reach[p]
    for q in range(len(a.cs)):
        if q not in reachable(q):
            continue
        comp = set(p for p in reachable(q) if q in reachable(p))
        # pairs of positions reached on one word; flag: the two ways differ
        start = (q, q, False)
        seen, todo = {start}, [start]
        while todo:
            p1, p2, d = todo.pop()
            for r1, n1 in succ.get(p1, ()):
                if r1 not in comp:
                    continue
                for r2, n2 in succ.get(p2, ()):
                    if r2 not in comp or not a.cs[r1] & a.cs[r2]:
                        continue
                    nd = d or r1 != r2 or (r1 == r2 and p1 == p2 and n1 > 1)
                    if r1 == q and r2 == q and nd:
                        if can_fail(pattern, flags, a, q):
                            if a.guarded:
                                raise Unsupported('ambiguous but for a condition')
                            return sorted(a.cs[q])[0]
                        continue
                    t = (r1, r2, nd)
                    if t not in seen:
                        seen.add(t)
                        todo.append(t)
    return None


def can_fail(pattern, flags, a, q):
    """Something must still match after the repetition, or the end of the text is asked for."""
    if q not in a.last:
        return True
    tree = list(sre_parse.parse(pattern, flags))
    return bool(tree) and tree[-1][0] is C.AT
