"""Tables that hold every pair in both directions, and some that do not."""


def match(G):
    mate = {}

    def join(v, w):
        mate[v] = w
        mate[w] = v
    for v in G:
        for w in G[v]:
            if v not in mate and w not in mate:
                join(v, w)
    return mate


def match_through(G):
    mate = {}

    def point(v, w):
        mate[v] = w
    for v in G:
        for w in G[v]:
            if v not in mate and w not in mate:
                point(v, w)
                point(w, v)
    return mate


def match_half(G):
    mate = {}
    for v in G:
        for w in G[v]:
            if v not in mate and w not in mate:
                mate[v] = w
    return mate


def match_when(G):
    mate = {}
    for v in G:
        for w in G[v]:
            if v not in mate:
                mate[v] = w
                if w not in mate:
                    mate[w] = v
    return mate


def links(pairs):
    table = {}
    for v, w in pairs:
        table.setdefault(v, {})
        table.setdefault(w, {})

    def link(v, w, label):
        table[v][w] = table[w][v] = label
    for v, w in pairs:
        link(v, w, None)
    return table


def links_both(G):
    table = {v: set() for v in G}
    for v in G:
        for w in G[v]:
            for a, b in ((v, w), (w, v)):
                table[a].add(b)
    return table


def links_half(G):
    table = {v: set() for v in G}
    for v in G:
        for w in G[v]:
            if v < w:
                table[v].add(w)
    return table


def links_label(pairs):
    table = {}

    def link(v, w, label):
        table[v][w] = label
        table[w][v] = label + 1
    for v, w in pairs:
        link(v, w, 0)
    return table


def reduce_path(graph, moves):
    G = {v: set(graph[v]) for v in graph}

    def path(u, v, w, x):
        G[w].remove(u)
        G[x].remove(u)
        G[w].remove(v)
        G[x].remove(v)
        del G[u], G[v]
        G[w].add(x)
        G[x].add(w)
    for u, v, w, x in moves:
        path(u, v, w, x)
    return G


def reduce_less(graph, moves):
    G = {v: set(graph[v]) for v in graph}

    def path(u, v, w, x):
        G[w].remove(u)
        G[x].remove(u)
        G[w].remove(v)
        del G[u], G[v]
        G[w].add(x)
        G[x].add(w)
    for u, v, w, x in moves:
        path(u, v, w, x)
    return G


def ring(n, k):
    return {i: ((i + 1) % n, (i - 1) % n, (i + k) % n, (i - k) % n)
            for i in range(n)}


def ring_shift(n, k):
    return {i: ((i + 1) % n, (i + 2) % n, (i + k) % n, (i - k) % n)
            for i in range(n)}
