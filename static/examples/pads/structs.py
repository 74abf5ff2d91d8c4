"""Tiny structures the rules must (Bad...) and must not (Good...) flag."""


class GoodLinked(object):
    def __init__(self):
        self._next = {}
        self._prev = {}
        self._first = None

    def __iter__(self):
        item = self._first
        while self._next:
            yield item
            item = self._next[item]
            if item == self._first:
                return

    def successor(self, x):
        return self._next[x]

    def predecessor(self, x):
        return self._prev[x]

    def insertAfter(self, x, y):
        if y in self._next:
            raise ValueError(y)
        z = self._next[x]
        self._prev[y], self._next[y] = x, z
        self._next[x] = y
        self._prev[z] = y

    def remove(self, x):
        a, b = self._prev.pop(x), self._next.pop(x)
        self._next[a] = b
        self._prev[b] = a
        if self._first == x:
            self._first = b


class BadLinked(GoodLinked):
    def insertAfter(self, x, y):
        if y in self._next:
            raise ValueError(y)
        z = self._next[x]
        self._prev[y], self._next[y] = x, z
        self._next[x] = y


class BadFirst(GoodLinked):
    def remove(self, x):
        a, b = self._prev.pop(x), self._next.pop(x)
        self._next[a] = b
        self._prev[b] = a


class GoodUpdate(object):
    def __init__(self):
        self._D = {}
        self._L = []

    def add(self, k, v):
        if k in self._D:
            raise KeyError(k)
        self._D[k] = v
        self._L.append(k)

    def replace(self, k, v):
        old = self._D[k]
        self._L.append(old)
        self._D[k] = v


class BadUpdate(GoodUpdate):
    def add(self, k, v):
        self._L.append(k)
        if k in self._D:
            raise KeyError(k)
        self._D[k] = v


class BadLookup(GoodUpdate):
    def replace(self, k, v):
        self._L.append(k)
        old = self._D[k]
        self._D[k] = v
        return old


class GoodQueue(object):
    def __init__(self):
        self._D = {}
        self._Q = {}
        self._N = None

    def __getitem__(self, item):
        return self._D[item]

    def __delitem__(self, item):
        bucket = self._Q[self._D[item]]
        bucket.remove(item)
        if not bucket:
            del self._Q[self._D[item]]
        del self._D[item]


class BadQueue(GoodQueue):
    def __delitem__(self, item):
        bucket = self._Q[self._D[item]]
        bucket.remove(item)
        if not bucket:
            del self._Q[self._D[item]]


class EmptyBucket(GoodQueue):
    def __delitem__(self, item):
        self._Q[self._D[item]].remove(item)
        del self._D[item]


class GoodUnion(object):
    def __init__(self):
        self.weights = {}
        self.parents = {}

    def __iter__(self):
        return iter(self.parents)

    def join(self, a, b):
        self.parents[b] = a
        self.weights[a] += self.weights[b]


class BadUnion(GoodUnion):
    def join(self, a, b):
        self.parents[b] = a
