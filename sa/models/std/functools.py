def cmp_to_key(cmp):
    class K(object):
        def __init__(self, obj):
            self.obj = obj

        def __lt__(self, other):
            return cmp(self.obj, other.obj) < 0

        def __gt__(self, other):
            return cmp(self.obj, other.obj) > 0

        def __eq__(self, other):
            return cmp(self.obj, other.obj) == 0

        def __le__(self, other):
            return cmp(self.obj, other.obj) <= 0

        def __ge__(self, other):
            return cmp(self.obj, other.obj) >= 0
    return K


def total_ordering(cls):
    if hasattr(cls, '__lt__'):
        if not hasattr(cls, '__gt__'):
            cls.__gt__ = lambda self, other: not (self < other) and self != other
        if not hasattr(cls, '__le__'):
            cls.__le__ = lambda self, other: self < other or self == other
        if not hasattr(cls, '__ge__'):
            cls.__ge__ = lambda self, other: not (self < other)
    elif hasattr(cls, '__le__'):
        if not hasattr(cls, '__gt__'):
            cls.__gt__ = lambda self, other: not (self <= other)
        if not hasattr(cls, '__lt__'):
            cls.__lt__ = lambda self, other: self <= other and self != other
        if not hasattr(cls, '__ge__'):
            cls.__ge__ = lambda self, other: not (self <= other) or self == other
    elif hasattr(cls, '__gt__'):
        if not hasattr(cls, '__lt__'):
            cls.__lt__ = lambda self, other: not (self > other) and self != other
        if not hasattr(cls, '__ge__'):
            cls.__ge__ = lambda self, other: self > other or self == other
        if not hasattr(cls, '__le__'):
            cls.__le__ = lambda self, other: not (self > other)
    elif hasattr(cls, '__ge__'):
        if not hasattr(cls, '__lt__'):
            cls.__lt__ = lambda self, other: not (self >= other)
        if not hasattr(cls, '__gt__'):
            cls.__gt__ = lambda self, other: self >= other and self != other
        if not hasattr(cls, '__le__'):
            cls.__le__ = lambda self, other: not (self >= other) or self == other
    return cls
