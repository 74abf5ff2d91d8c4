"""Bit vectors the rules must accept or reject."""


class Heap_good:
    def __init__(self):
        self._S = 0

    def add(self, x):
        self._S |= 1 << x

    def remove(self, x):
        self._S &= ~(1 << x)


class Heap_test(Heap_good):
    def add(self, x):
        if not self._S & (1 << x):
            self._S += 2 ** x

    def remove(self, x):
        if self._S >> x & 1:
            self._S ^= 1 << x


class Heap_xor(Heap_good):
    def remove(self, x):
        self._S ^= 1 << x


class Heap_plus(Heap_good):
    def add(self, x):
        self._S += 1 << x


class Heap_index(Heap_good):
    def remove(self, x):
        self._S &= ~x


class Medium_good:
    def __init__(self, states):
        self._states = set(states)

    def action(self, S, t):
        i, b = t
        V = S | (1 << i) if b else S & ~(1 << i)
        return V if V in self._states else S


class Medium_xor(Medium_good):
    def action(self, S, t):
        i, b = t
        V = S ^ (1 << i)
        return V if V in self._states else S


class Reach_good:
    def __init__(self, order, G):
        self.key = {}
        self.sets = []
        for v in order:
            k = self.key[v] = len(self.sets)
            bits = 1 << k
            for w in G[v]:
                bits |= self.sets[self.key[w]]
            self.sets.append(bits)

    def reachable(self, v, w):
        return bool(self.sets[self.key[v]] & (1 << self.key[w]))


class Reach_xor(Reach_good):
    def __init__(self, order, G):
        self.key = {}
        self.sets = []
        for v in order:
            k = self.key[v] = len(self.sets)
            bits = 1 << k
            for w in G[v]:
                bits ^= self.sets[self.key[w]]
            self.sets.append(bits)


class Reach_swap(Reach_good):
    def reachable(self, v, w):
        return bool(self.sets[self.key[w]] & (1 << self.key[v]))


class Cells_good:
    def unplace(self, digit, mask):
        self.locations[digit] &= ~mask

    def place(self, digit, cell):
        for d in range(1, 10):
            if d != digit:
                self.unplace(d, 1 << cell)
        self.unplace(digit, near[cell])

    def choices(self, cell):
        return [d for d in range(1, 10) if self.locations[d] & (1 << cell)]


class Cells_all(Cells_good):
    def place(self, digit, cell):
        for d in range(1, 10):
            self.unplace(d, 1 << cell)
        self.unplace(digit, near[cell])


near = [0] * 81
