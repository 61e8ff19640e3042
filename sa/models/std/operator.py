def contains(a, b):
    return b in a


def getitem(a, b):
    return a[b]


def setitem(a, b, c):
    a[b] = c


def concat(a, b):
    return a + b


def truth(a):
    return bool(a)


def not_(a):
    return not a


def is_(a, b):
    return a is b


def is_not(a, b):
    return a is not b


def pos(a):
    return a


def abs_(a):
    return abs(a)


def and_(a, b):
    return a & b


def or_(a, b):
    return a | b


def xor(a, b):
    return a ^ b


def methodcaller(name, *args, **kwargs):
    return lambda obj: getattr(obj, name)(*args, **kwargs)


def iadd(a, b):
    a += b
    return a
