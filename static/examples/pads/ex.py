"""Tiny examples the rules must (bad) and must not (good) flag."""
import random

TABLE = {}


def c01_bad_direct(G):
    for v in list(G):
        G[v].discard(v)
    return len(G)


def _helper(acc, x):
    acc.append(x)


def c01_bad_alias(L, k):
    M = L if k else list(L)
    _helper(M, k)
    return len(M)


def c01_bad_aug(S, T):
    S |= T
    return len(S), len(T)


def c01_good(G, L):
    H = {v: set(G[v]) for v in G}
    for v in H:
        H[v].discard(v)
    M = list(L)
    M.sort()
    _helper(M, 1)
    return H, M


def c02_bad(G):
    return {v: G[v] for v in G if len(G[v]) > 1}


def c02_good(G):
    return {v: set(G[v]) for v in G if len(G[v]) > 1}


def c03_bad(G):
    out = []
    for v in G:
        out.append(v)
        yield out


def c03_good(G):
    out = []
    for v in G:
        if len(out) > 2:
            yield out
            out = []
        out.append(v)
    yield out


def c04_bad(G):
    return min((len(G[v]), v) for v in G)


def c04_good(G):
    return min(G, key=lambda v: len(G[v]))


def c05_bad_state(x, seen={}):
    seen[x] = True
    return len(seen)


def c05_bad_table(x):
    TABLE[x] = x
    return x


def c05_bad_random(L):
    return random.choice(L)


def c05_good(x, seen=None):
    seen = seen if seen is not None else {}
    local = dict(seen)
    local[x] = True
    return len(local)


def c06_bad(G):
    H = {v: set(G[v]) for v in G}
    for v in H:
        if not H[v]:
            del H[v]
    return H


def c06_good(G):
    H = {v: set(G[v]) for v in G}
    for v in list(H):
        if not H[v]:
            del H[v]
    for v in H:
        if H[v]:
            del H[v]
            break
    return H


def c07_bad(G, v):
    seen = set()

    def visit(v):
        seen.add(v)
        for w in G[v]:
            if w not in seen:
                visit(w)
    visit(v)
    return seen


def c07_good(G, v):
    seen = {v}
    stack = [v]
    while stack:
        for w in G[stack.pop()]:
            if w not in seen:
                seen.add(w)
                stack.append(w)
    return seen


def c10_bad_name(G):
    return undefined_name(G)    # noqa


def c10_bad_attr(G):
    L = [v for v in G]
    return L.iteritems()


def _two(a, b):
    return a


def c10_bad_arity(G):
    return _two(G)


def c10_good(G):
    L = {v: 1 for v in G}
    return _two(L.items(), 2)


class Signal(Exception):
    pass


def _test(G):
    for v in G:
        if v in G[v]:
            raise Signal


def c09_bad_broad(G):
    try:
        _test(G)
        return True
    except Exception:
        return False


def c09_bad_extra(G):
    try:
        _test(G)
        return True
    except (Signal, KeyError):
        return False


def c09_bad_escape(G):
    _test(G)
    return len(G) > 3


def c09_bad_always(G):
    try:
        _test(G)
    except Signal:
        pass
    return True


def c09_good(G):
    try:
        _test(G)
    except Signal:
        return False
    return True


def c23_bad_truth(G):
    last = {}
    for v in G:
        for w in G[v]:
            if not last.get(w):
                last[w] = v
    return len(last)


def c23_bad_none(items):
    best = None
    for x in items:
        if best is None:
            best = x
    return best


def c23_bad_or(items, start):
    first = start or next(iter(items))
    return [first]


def c23_bad_filter(items):
    return list(filter(None, items))


def c23_good(G):
    last = {}
    for v in G:
        for w in G[v]:
            if w not in last:
                last[w] = v
    return [v for v in last if G[v] and last[v] != v]


def c24_bad_items(G):
    return sum(1 for v, N in G.items() if v in N)


def c24_bad_operator(G):
    seen = set()
    for v in G:
        if not seen & G[v]:
            seen.add(v)
    return seen


def c24_bad_update(G):
    seen = set()
    for v in G:
        seen |= G[v]
    return seen


def c24_bad_first(G):
    return {v: G[v][0] for v in G}


def c24_bad_get(G, v):
    return [w for w in G.get(v, ())]


def c24_bad_compare(G, v):
    S = set(G)
    return S <= G[v]


def c24_good(G):
    H = {v: set(G[v]) for v in G}
    seen = set()
    for v in G:
        seen |= H[v]
        seen.update(G[v])
    return len(G), [v for v in seen if v in G and len(G[v]) > 1]


def c02_bad_view(G):
    if len(G) > 9:
        return G.keys()
    return set(G)


class C26Good:
    def __init__(self, items):
        self.table = {}
        self.memo = None
        for x in items:
            self.table[x] = 1

    def add(self, x):
        self.table[x] = 1

    def list(self):
        out = []
        for x in self.table:
            out.append(x)
        return out

    def __iter__(self):
        return iter(self.table)

    def size(self):
        if self.memo is None:
            self.memo = len(self.table)
        return self.memo


class C26BadDefault:
    def __init__(self, items):
        self.table = dict.fromkeys(items, 1)

    def get(self, x):
        return self.table.setdefault(x, 0)


class C26BadCursor:
    def __init__(self, items):
        self.table = list(items)
        self.at = 0

    def walk(self):
        self.at = 0
        while self.at < len(self.table):
            yield self.table[self.at]
            self.at += 1


class C26BadHelper:
    def __init__(self, items):
        self.table = list(items)

    def _sorted(self):
        t = self.table
        t.sort()
        return t

    def first(self):
        return self._sorted()[0]


class C26BadDeep:
    def __init__(self, items):
        self.table = {1: set(items)}

    def get(self, x):
        s = self.table[1]
        s.add(x)
        return len(s)
