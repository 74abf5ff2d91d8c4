"""Puzzles the rules must accept or reject."""


class Base:
    def __init__(self):
        self.contents = [0] * 4
        self.locations = [15] * 5
        self.progress = False
        self.pairs = None

    def mark(self):
        self.progress = True
        self.pairs = None


class Good(Base):
    def place(self, digit, cell):
        if self.contents[cell]:
            raise ValueError
        if not self.locations[digit] & (1 << cell):
            raise ValueError
        self.contents[cell] = digit
        self.mark()

    def unplace(self, digit, mask):
        old = self.locations[digit]
        self.locations[digit] = old - (old & mask)
        if old & mask:
            self.mark()


class BadGrow(Good):
    def unplace(self, digit, mask):
        self.locations[digit] ^= mask
        self.mark()


class BadFull(Good):
    def place(self, digit, cell):
        if self.contents[cell] == digit:
            return
        if not self.locations[digit] & (1 << cell):
            raise ValueError
        self.contents[cell] = digit
        self.mark()


class BadExcluded(Good):
    def place(self, digit, cell):
        if self.contents[cell]:
            raise ValueError
        self.contents[cell] = digit
        self.mark()


class BadFlag(Good):
    def unplace(self, digit, mask, log=False):
        self.locations[digit] &= ~mask
        if log:
            self.mark()
