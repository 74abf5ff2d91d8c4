"""Negations and reversals the rules must accept or reject."""


class Neg_good:
    def __init__(self, x):
        self.inside = x

    def __eq__(self, other):
        return isinstance(other, Neg_good) and self.inside == other.inside

    def __hash__(self):
        return hash(('not', self.inside))


def neg_good(x):
    if isinstance(x, Neg_good):
        return x.inside
    return Neg_good(x)


class Neg_type:
    def __init__(self, x):
        self.inside = x

    def off(self):
        return self.inside

    def __eq__(self, other):
        if not isinstance(other, Neg_type):
            return NotImplemented
        return self.inside == other.inside

    def __hash__(self):
        return ~hash(self.inside)


def neg_type(x):
    return x.off() if isinstance(x, Neg_type) else Neg_type(x)


class Neg_twice(Neg_good):
    def __init__(self, x):
        self.inside = x

    def __eq__(self, other):
        return isinstance(other, Neg_twice) and self.inside == other.inside


def neg_twice(x):
    return Neg_twice(x)


class Neg_equal(Neg_good):
    def __init__(self, x):
        self.inside = x

    def __eq__(self, other):
        return isinstance(other, Neg_equal)


def neg_equal(x):
    return x.inside if isinstance(x, Neg_equal) else Neg_equal(x)


class Neg_hash(Neg_good):
    def __init__(self, x):
        self.inside = x

    def __eq__(self, other):
        return isinstance(other, Neg_hash) and self.inside == other.inside

    def __hash__(self):
        return hash(repr(self.inside))


def neg_hash(x):
    return x.inside if isinstance(x, Neg_hash) else Neg_hash(x)


class Bits_good:
    def reverse(self, t):
        i, b = t
        return i, not b


class Bits_minus:
    def reverse(self, t):
        return (t[0], 1 - t[1])


class Bits_same:
    def reverse(self, t):
        i, b = t
        return i, b


class Table_good:
    def __init__(self, pairs):
        self.back = {}
        for a, b in pairs:
            if a in self.back or b in self.back:
                raise ValueError('paired twice')
            self.back[a] = b
            self.back[b] = a

    def reverse(self, t):
        return self.back[t]


class Table_lost(Table_good):
    def __init__(self, pairs):
        self.back = {}
        for a, b in pairs:
            if a not in self.back:
                self.back[a] = b
                self.back[b] = a


class Table_once(Table_good):
    def __init__(self, pairs):
        self.back = {}
        for a, b in pairs:
            self.back[a] = b
            if b not in self.back and len(b) > 1:
                self.back[b] = a


def graph_good(G):
    H = {}
    for v in G:
        for w in G[v]:
            H[v].add(w)
            H[Not(w)].add(Not(v))
    return H


def graph_once(G):
    H = {}
    for v in G:
        for w in G[v]:
            H[v].add(w)
            H[Not(v)].add(Not(w))
    return H
