"""Languages with a wrong inclusion."""
import operator


class RegularLanguage:
    def __init__(self, recognizer):
        self.recognizer = recognizer

    def __contains__(self, word):
        return self.recognizer(word)

    def __eq__(self, other):
        return self.recognizer.minimize() == other.recognizer.minimize()

    def __ne__(self, other):
        return not self == other

    def __le__(self, other):
        return not self > other

    def __ge__(self, other):
        return other <= self

    def __lt__(self, other):
        return self <= other and not other <= self

    def __gt__(self, other):
        return other < self

    def __invert__(self):
        return RegularLanguage(self.recognizer.complement())

    def __and__(self, other):
        return RegularLanguage(self.recognizer.intersection(other.recognizer))

    def __or__(self, other):
        return ~(~self & ~other)

    def __xor__(self, other):
        return (self & ~other) | (other & ~self)

    def __bool__(self):
        return any(self.recognizer.isfinal(x)
                   for x in self.recognizer.states())


class FiniteAutomaton:
    def complement(self):
        return Complement(self)

    def union(self, other):
        return Product(self, other, operator.or_)

    def intersection(self, other):
        return Product(self, other, lambda a, b: a and b)

    def symmetricDifference(self, other):
        return Product(self, other, operator.ne)


class DFA(FiniteAutomaton):
    def __call__(self, word):
        state = self.initial
        for c in word:
            state = self.transition(state, c)
        return self.isfinal(state)


class Complement(DFA):
    def __init__(self, D):
        self.D = D
        self.initial = D.initial

    def transition(self, s, c):
        return self.D.transition(s, c)

    def isfinal(self, s):
        return not self.D.isfinal(s)


class Product(DFA):
    def __init__(self, D, E, op):
        self.D = D
        self.E = E
        self.op = op
        self.initial = D.initial, E.initial

    def transition(self, s, c):
        d, e = s
        return self.D.transition(d, c), self.E.transition(e, c)

    def isfinal(self, s):
        return self.op(self.D.isfinal(s[0]), self.E.isfinal(s[1]))
