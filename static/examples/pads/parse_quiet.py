"""A reader of graphs."""

class GraphFormatError(Exception):
    pass


def graph():
    return {}


def vertex(G, v):
    if v in G:
        raise GraphFormatError('Duplicate vertex %s' % v)
    G[v] = {}


def edge(G, u, v, e):
    if u == v:
        raise GraphFormatError('Self-loop at %s' % u)
    if u not in G:
        raise GraphFormatError('Unexpected vertex %s' % u)
    if v not in G:
        raise GraphFormatError('Unexpected vertex %s' % v)
    G[u][v] = G[v][u] = e


def readPairs(lines):
    G = graph()
    for n, line in enumerate(lines):
        u, v = line.split()
        for x in (u, v):
            if x not in G:
                vertex(G, x)
        try:
            edge(G, u, v, n)
        except GraphFormatError:
            pass
    return G
