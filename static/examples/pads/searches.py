"""Tiny searches the undo rule must (bad...) and must not (good) flag."""


def good(G):
    mark = {}

    def visit(v):
        if v in mark:
            return False
        mark[v] = True

        def unvisit():
            del mark[v]
        actions.append(unvisit)
        return True

    def main():
        if visit(next(iter(G))):
            actions.append(main)

    actions = [main]
    while actions:
        if actions.pop()():
            yield len(mark)


def bad_undo(G):
    mark = {}

    def visit(v):
        mark[v] = True

        def unvisit():
            del mark[v]
        actions.append(unvisit)
        return True

    def main():
        if visit(next(iter(G))):
            actions.append(main)

    actions = [main]
    while actions:
        if actions.pop()():
            yield len(mark)


def bad_order(G):
    mark = {}

    def visit(v):
        if v in mark:
            return False
        mark[v] = True

        def unvisit():
            del mark[v]
        actions.append(main)
        actions.append(unvisit)
        return True

    def main():
        visit(next(iter(G)))

    actions = [main]
    while actions:
        if actions.pop()():
            yield len(mark)


def bad_missing(G):
    mark = {}

    def visit(v):
        if v in mark:
            return False
        mark[v] = True
        return True

    def main():
        if visit(next(iter(G))):
            actions.append(main)

    actions = [main]
    while actions:
        if actions.pop()():
            yield len(mark)
