"""Text shapes used by the reader/writer checks."""
from sa.lab import *

DIG = '0123456789'
NUM = DIG + '.-'


def num(label, v=None, chars=NUM):
    """Text that denotes a number (no exponent, no thousands separators)."""
    v = sym(label) if v is None else v
    return Hole('t:' + label, chars, 1, None, v, DIG + '.-')


def dig(label, nonzero=False):
    """One decimal digit; its number is the symbol `label`."""
    DIGIT_ATOMS[label] = DIG[1:] if nonzero else DIG
    return Hole(label, DIG[1:] if nonzero else DIG, 1, 1, sym(label, '+' if nonzero else '0+', isint=True))


def word(label, chars, minlen=1, maxlen=None):
    return Hole(label, chars, minlen, maxlen)


def text(*parts):
    return SStr([p for q in parts for p in (q if isinstance(q, (list, tuple)) else [q])]).simp()


def pieces(v):
    """[literal | hole] of a written text."""
    if isinstance(v, str):
        return [v] if v else []
    if isinstance(v, SStr):
        return list(v.parts)
    return None


def fields(v, sep=','):
    """Split a written text at a separator that occurs in literals only."""
    out = [[]]
    for p in pieces(v):
        if isinstance(p, str):
            bits = p.split(sep)
            for i, b in enumerate(bits):
                if i:
                    out.append([])
                if b:
                    out[-1].append(b)
        else:
            out[-1].append(p)
    return [text(*f) if f else '' for f in out]


def number(v):
    """The number a written field denotes, or None."""
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            return None
    if isinstance(v, SStr) and len(v.parts) == 1 and isinstance(v.parts[0], Hole):
        return v.parts[0].val
    return None


def digits(v):
    """Decimal digits kept by a written field: None if all, else the precision of the format."""
    import re
    if isinstance(v, SStr) and len(v.parts) == 1 and isinstance(v.parts[0], Hole):
        m = re.search(r'%[^%]*?(?:\.(\d+))?([gGeEfFd])$', v.parts[0].label)
        if m:
            return int(m.group(1)) if m.group(1) else 0 if m.group(2) == 'd' else 6
    return None
