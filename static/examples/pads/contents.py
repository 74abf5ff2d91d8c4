"""Examples for C30; never imported."""


class Good:
    def __init__(self, items):
        self._D = dict(items)

    def __len__(self):
        return len(self._D)

    def __contains__(self, x):
        return x in self._D

    def __getitem__(self, x):
        return self._D[x]

    def __iter__(self):
        return iter(self._D)

    def __bool__(self):
        return bool(self._D)


class GoodLoops:
    def __init__(self, items):
        self._D = list(items)

    def __len__(self):
        n = 0
        for x in self._D:
            n += 1
        return n

    def __iter__(self):
        for x in self._D:
            yield x

    def __bool__(self):
        return len(self._D) > 0


class GoodViews:
    def __init__(self, items):
        self._D = {}
        self._D.update(items)

    def __len__(self):
        return sum(1 for x in self._D.keys())

    def __iter__(self):
        return iter(sorted(self._D.keys()))


class BadSize(Good):
    def __len__(self):
        return len(self._D) - 1


class BadCount(Good):
    def __len__(self):
        return sum(1 for x in self._D if self._D[x])


class BadMember(Good):
    def __contains__(self, x):
        return bool(self._D.get(x))


class BadLookup(Good):
    def __getitem__(self, x):
        return self._D.get(x)


class BadSlice(Good):
    def __iter__(self):
        return iter(list(self._D)[1:])


class BadFilter(Good):
    def __iter__(self):
        for x in self._D:
            if self._D[x]:
                yield x


class BadTruth(Good):
    def __bool__(self):
        return self._D is not None


class BadView(Good):
    def __iter__(self):
        return iter(self._D.values())


class BadCopy(Good):
    def __init__(self, items):
        self._D = [x for x in items if x]


class BadTable(Good):
    def __len__(self):
        return len(self._Q)
