"""Bit expressions as Boolean functions of one bit position.

An expression built from &, |, ^, ~ (and a - (a & b)) acts on every bit
position alone.  At one position it is a Boolean function of the bits of its
leaves, and that function is compared row by row.
"""
import itertools

NOT_BITWISE = None


def leaves(t, out, leaf):
    """The leaves of a bit expression, in order; False when t has none."""
    x = leaf(t)
    if x is not None:
        if x not in out:
            out.append(x)
        return
    if t[0] in ('&', '|', '^', '~'):
        for a in t[1:]:
            leaves(a, out, leaf)
        return
    if t[0] == 'ite':
        c = ('cond', t[1])
        if c not in out:
            out.append(c)
        leaves(t[2], out, leaf)
        leaves(t[3], out, leaf)
        return
    if t[0] == 'c' and type(t[1]) is int and t[1] in (0, -1):
        return
    s = minus(t)
    if s is not None:
        for a in s:
            leaves(a, out, leaf)
        return
    if t not in out:
        out.append(t)


def minus(t):
    """(a, b) when t is a - b with b known to be part of a."""
    if t[0] == '-' and len(t) == 3:
        a, b = t[1], t[2]
    elif t[0] == '+' and len(t) == 3:
        for a, b in ((t[1], t[2]), (t[2], t[1])):
            if b[0] == 'neg':
                b = b[1]
                break
        else:
            return None
    else:
        return None
    if b[0] == '&' and (a in b[1:] or a[0] == '&' and
                        set(a[1:]) <= set(b[1:])):
        return a, b
    return None


def bit(t, row, leaf):
    """The bit of t at a position with the given bits of the leaves."""
    x = leaf(t)
    if x is not None:
        return row[x]
    if t[0] == '&':
        return all(bit(a, row, leaf) for a in t[1:])
    if t[0] == '|':
        return any(bit(a, row, leaf) for a in t[1:])
    if t[0] == '^':
        return sum(bit(a, row, leaf) for a in t[1:]) % 2 == 1
    if t[0] == '~':
        return not bit(t[1], row, leaf)
    if t[0] == 'ite':
        return bit(t[2] if row['cond', t[1]] else t[3], row, leaf)
    if t == ('c', 0):
        return False
    if t == ('c', -1):
        return True
    s = minus(t)
    if s is not None:
        return bit(s[0], row, leaf) and not bit(s[1], row, leaf)
    return row[t]


def rows(terms, leaf, limit=10):
    """All combinations of bits of the leaves of the terms."""
    names = []
    for t in terms:
        leaves(t, names, leaf)
    if len(names) > limit:
        return
    for v in itertools.product((False, True), repeat=len(names)):
        yield dict(zip(names, v))
