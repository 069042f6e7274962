"""Graphs in dot format"""
from mc.core import Harness

NAMES = ['a', 'A', 'a-b', '_a', 'c_']


def plain(x):
    return str(x).strip('"')


class Node(object):
    def __init__(self, name):
        self.name = name

    def __str__(self):
        return self.name


def body(t):
    from pygraph.classes.digraph import digraph
    from pygraph.classes.graph import graph
    from libs.dot.dotio import write, read
    directed = t.bool()
    n = t.int(0, 4)
    names = NAMES[:n] if n < 4 else t.pick([NAMES[:4], ['a', 'b', 'c', 'a-b']])
    objects = t.bool() if n < 4 else n == 4 and directed
    nodes = [Node(x) for x in names] if objects else names
    pairs = [(i, j) for i in range(n) for j in range(n) if directed or i <= j]
    chosen = t.subset(pairs, 3 if n < 4 or t.tier == 'thorough' else 2)
    weighted = t.bool()
    label = t.pick(['', 'yes', 'x y'])
    g = digraph() if directed else graph()
    g.add_nodes(nodes)
    if n:
        g.add_node_attribute(nodes[0], ('color', 'red'))
    for k, (i, j) in enumerate(chosen):
        g.add_edge((nodes[i], nodes[j]), wt=k + 2, label=label if k == 0 else '')
    styled = chosen and not objects and n < 4 and not label and t.bool()
    if styled:
        g.add_edge_attribute((nodes[chosen[-1][0]], nodes[chosen[-1][1]]), ('style', 'bold'))
        g.name = 'flow'
    text = write(g, weighted=weighted)
    if styled:
        t.check(text.split()[1] == 'flow', 'the name of the graph is not written: {}', text.split()[:3])
    t.equal(sorted(map(str, g.nodes())), sorted(names), 'nodes of the graph that was written')
    lines = [x.strip().rstrip(';') for x in text.splitlines()]
    arrow = '->' if directed else '--'
    edge_lines = [x.split(' [')[0] for x in lines if (' %s ' % arrow) in x]
    key = (lambda a, b: (a, b)) if directed else (lambda a, b: tuple(sorted((a, b))))
    want = sorted(key(names[i], names[j]) for i, j in chosen)
    got = sorted(key(*(plain(p) for p in x.split(' %s ' % arrow))) for x in edge_lines)
    t.equal(got, want, 'edges written of the graph %s' % want)
    r = read(text)
    t.check(isinstance(r, digraph if directed else graph), 'a {} was read', type(r))
    t.equal(sorted(plain(x) for x in r.nodes()), sorted(names), 'nodes read of the graph %s' % want)
    t.equal(sorted({key(plain(a), plain(b)) for a, b in r.edges()}), want, 'edges read of the graph %s' % want)
    t.equal(len(r.edges()), len(g.edges()), 'number of edges read')
    back = {(plain(a), plain(b)): (a, b) for a, b in r.edges()}
    for k, (i, j) in enumerate(chosen):
        e = back[names[i], names[j]]
        wt = k + 2 if weighted else 1
        shown = label if k == 0 and label else (str(k + 2) if weighted else '')
        t.equal(float(plain(r.edge_weight(e))), float(wt), 'weight of edge %s' % (e,))
        t.equal(plain(r.edge_label(e)), shown, 'label of edge %s' % (e,))
        t.equal([(a, plain(b)) for a, b in r.edge_attributes(e)],
                [('style', 'bold')] if styled and k == len(chosen) - 1 else [], 'attributes of edge %s' % (e,))
    if n:
        attrs = {plain(x): dict(r.node_attributes(x)) for x in r.nodes()}
        t.equal({k: plain(v.get('color')) for k, v in attrs.items() if v}, {names[0]: 'red'}, 'attributes read')
    # The nodes of an edge need not be declared
    bare = '\n'.join(x for x in text.splitlines() if '{' in x or '}' in x or (' %s ' % arrow) in x)
    r = read(bare)
    t.equal(sorted(plain(x) for x in r.nodes()), sorted({x for e in want for x in e}), 'nodes read of a text without them')
    t.equal(sorted({key(plain(a), plain(b)) for a, b in r.edges()}), want, 'edges read of a text without nodes')
    t.step(3)
    t.state(directed, n, tuple(want), weighted, label)
    t.sample(directed=directed, edges=want)


def large(t):
    """Graphs of dozens of nodes: chains, stars, grids and complete ones"""
    from pygraph.classes.digraph import digraph
    from pygraph.classes.graph import graph
    from libs.dot.dotio import write, read
    directed = t.bool()
    n = t.pick([10, 11, 33] + ([101, 300] if t.tier == 'thorough' else []))
    shape = t.pick(['chain', 'star', 'in', 'grid', 'complete', 'loops', 'none'])
    pairs = {'chain': [(i, i + 1) for i in range(n - 1)], 'star': [(0, i) for i in range(1, n)], 'in': [(i, n - 1) for i in range(n - 1)],
             'grid': [(i, i + d) for i in range(n) for d in (1, 5) if i + d < n],
             'complete': [(i, j) for i in range(min(n, 12)) for j in range(min(n, 12)) if i < j or directed and i != j], 'none': [],
             'loops': [(i, i) for i in range(n)] + [(i, i + 1) for i in range(n - 1)] + ([(i + 1, i) for i in range(n - 1)] if directed else [])}[shape]
    name = t.pick(['n%d', '%d-n'])
    names = [name % i for i in range(n)]
    g = digraph() if directed else graph()
    g.add_nodes(names)
    for k, (i, j) in enumerate(pairs):
        g.add_edge((names[i], names[j]), wt=k + 2, label='e%d' % k)
    r = read(write(g, weighted=True))
    t.check(sorted(plain(x) for x in r.nodes()) == sorted(names), '{} nodes read of the {} of {}', len(r.nodes()), shape, n)
    back = {(plain(a), plain(b)): (a, b) for a, b in r.edges()}
    want = set((names[i], names[j]) for i, j in pairs) | (set() if directed else set((names[j], names[i]) for i, j in pairs))
    t.check(set(back) == want and len(r.edges()) == len(want), '{} edges read of the {} of {}', len(back), shape, n)
    for k, (i, j) in enumerate(pairs):
        e = back[names[i], names[j]]
        t.check(float(plain(r.edge_weight(e))) == k + 2 and plain(r.edge_label(e)) == 'e%d' % k, 'weight and label of the edge {}', k)
    t.step(len(pairs) + 1)
    t.state(directed, n, shape, name)
    t.sample(directed=directed, nodes=n, shape=shape)


def hyper(t):
    from pygraph.classes.hypergraph import hypergraph
    from libs.dot.dotio import write, write_hypergraph, read, read_hypergraph
    n = t.int(0, 3)
    m = t.int(0, 2)
    nodes, edges = ['a', '_a-b', 'A_'][:n], t.pick([['E', 'b-e'], ['_e', 'e_'], ['e', '_e_']])[:m]
    h = hypergraph()
    h.add_nodes(nodes)
    links = {}
    for e in edges:
        h.add_hyperedge(e)
        links[e] = t.subset(nodes)
        for x in links[e]:
            h.link(x, e)
    text = write_hypergraph(h, colored=True) if t.bool() else write(h)
    r = read_hypergraph(text)
    t.equal(sorted(map(plain, r.nodes())), sorted(nodes), 'nodes read')
    t.equal({plain(e): sorted(map(plain, r.links(e))) for e in r.hyperedges()}, {e: sorted(v) for e, v in links.items()}, 'links read')
    t.step(2)
    t.state(n, m, str(links))
    t.sample(links=links)


def large_hyper(t):
    """As many hyperedges and links as a program may have"""
    from pygraph.classes.hypergraph import hypergraph
    from libs.dot.dotio import write_hypergraph, read_hypergraph
    n, m = t.pick([10, 17, 40]), t.pick([1, 2, 11])
    nodes, edges = ['n%d' % i for i in range(n)], ['e%d' % i for i in range(m)]
    shape = t.pick(['all', 'own', 'next', 'shared', 'odd'])
    of = {'all': lambda e: range(n), 'own': lambda e: [e % n], 'next': lambda e: [(e + k) % n for k in range(3)],
          'shared': lambda e: [0] + [k for k in range(1, n) if k % m == e], 'odd': lambda e: [k for k in range(n) if (k + e) % 2]}[shape]
    h = hypergraph()
    h.add_nodes(nodes)
    links = {}
    for k, e in enumerate(edges):
        h.add_hyperedge(e)
        links[e] = sorted({nodes[x] for x in of(k)})
        for x in links[e]:
            h.link(x, e)
    r = read_hypergraph(write_hypergraph(h, colored=True) if t.bool() else write_hypergraph(h))
    t.equal(sorted(map(plain, r.nodes())), sorted(nodes), 'nodes read')
    t.equal({plain(e): sorted(map(plain, r.links(e))) for e in r.hyperedges()}, links, 'links read')
    t.step(2)
    t.state(n, m, shape)


def refused(t):
    from pygraph.classes.exceptions import InvalidGraphType
    from libs.dot.dotio import write
    try:
        write(t.pick([None, 'digraph { a; }', {'a': ['b']}, [1, 2]]))
    except InvalidGraphType:
        t.step(1)
        t.state('refused')
        return
    t.check(False, 'something that is no graph was written')


HARNESSES = [Harness('refused', refused, 'values that are no graph'),
             Harness('graphs', body, 'every directed or undirected graph of 0..4 nodes with at most 3 (4 nodes: 2, thorough 3) edges, self loops included, '
                     'names that contain dashes, weights, labels, attributes of nodes and edges, name of the graph, and the text '
                     'without the declarations of the nodes'),
             Harness('large', large, '7 shapes of graphs of 10..33 (thorough 300) nodes, directed or not, labels and weights on every edge'),
             Harness('hypergraphs', hyper, 'every hypergraph of 0..3 nodes and 0..2 hyperedges'),
             Harness('large-hypergraphs', large_hyper, 'hypergraphs of 10..40 nodes and 1..11 hyperedges in 5 shapes')]
