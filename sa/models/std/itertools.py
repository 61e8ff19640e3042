def takewhile(pred, it):
    for x in it:
        if not pred(x):
            return
        yield x


def dropwhile(pred, it):
    dropping = True
    for x in it:
        if dropping and pred(x):
            continue
        dropping = False
        yield x


def filterfalse(pred, it):
    for x in it:
        if not (pred(x) if pred is not None else x):
            yield x


def starmap(fn, it):
    for x in it:
        yield fn(*x)


def compress(data, selectors):
    for d, s in zip(data, selectors):
        if s:
            yield d


def pairwise(it):
    data = list(it)
    for a, b in zip(data, data[1:]):
        yield (a, b)


def accumulate(it, func=None, initial=None):
    total = initial
    first = initial is None
    if not first:
        yield total
    for x in it:
        if first:
            total = x
            first = False
        elif func is None:
            total = total + x
        else:
            total = func(total, x)
        yield total


def groupby(it, key=None):
    groups = []
    for x in it:
        k = x if key is None else key(x)
        if groups and groups[-1][0] == k:
            groups[-1][1].append(x)
        else:
            groups.append((k, [x]))
    for k, xs in groups:
        yield (k, iter(xs))


def permutations(it, r=None):
    data = list(it)
    n = len(data) if r is None else r

    def rest(left):
        if left == 0:
            return [()]
        out = []
        for head in rest(left - 1):
            for i in range(len(data)):
                if i not in head:
                    out.append(head + (i,))
        return out
    for idx in rest(n):
        yield tuple([data[i] for i in idx])


def combinations_with_replacement(it, r):
    data = list(it)

    def rest(left, start):
        if left == 0:
            return [()]
        out = []
        for i in range(start, len(data)):
            for tail in rest(left - 1, i):
                out.append((i,) + tail)
        return out
    for idx in rest(r, 0):
        yield tuple([data[i] for i in idx])
