"""Rules that may only act when an option is set."""


def good(grid):
    if not grid.careful:
        return
    grid.place(1, 2)


def helper(grid):
    grid.unplace(1, 2)


def good_helper(grid):
    if grid.careful and grid.progress:
        helper(grid)


def stream(grid):
    if grid.careful:
        for x in grid.pairs:
            yield x


def good_stream(grid):
    for x in stream(grid):
        grid.unplace(x, 2)


def bad_none(grid):
    grid.place(1, 2)


def bad_late(grid):
    for x in grid.pairs:
        grid.unplace(x, 1)
        if not grid.careful:
            return


def bad_other(grid):
    if not grid.progress:
        return
    grid.place(1, 2)


def bad_either(grid):
    if grid.careful or grid.progress:
        grid.place(1, 2)
