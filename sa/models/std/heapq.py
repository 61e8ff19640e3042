def nsmallest(n, it, key=None):
    return sorted(it, key=key)[:n]


def nlargest(n, it, key=None):
    return sorted(it, key=key, reverse=True)[:n]


def heapify(h):
    h.sort()


def heappush(h, x):
    i = 0
    while i < len(h) and not (x < h[i]):
        i += 1
    h.insert(i, x)


def heappop(h):
    i = h.index(min(h))
    return h.pop(i)
