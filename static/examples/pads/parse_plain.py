"""A reader of graphs."""

class GraphFormatError(Exception):
    pass


def graph():
    return {}


def refuse(what, x):
    return GraphFormatError('%s %s' % (what, x))


def vertex(G, v):
    if v not in G:
        G[v] = dict()
    else:
        raise refuse('Duplicate', v)


def known(G, x):
    if not x in G:
        raise GraphFormatError('Unexpected %s' % x)


def edge(G, u, v, e):
    known(G, u)
    known(G, v)
    if not u != v:
        raise GraphFormatError('Self-loop %s' % v)
    for x, y in ((u, v), (v, u)):
        G[x][y] = e


def readPairs(lines):
    G = {}
    for n, line in enumerate(lines):
        u, v = line.split()
        if u not in G:
            G[u] = {}
        if v not in G:
            G[v] = {}
        edge(G, u, v, n)
    return G
