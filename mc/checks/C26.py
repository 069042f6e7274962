"""Dominator tree"""
from mc.core import Harness
from mc.graphs import graph, dominators, immediate, pick_edges, of_examples


def compare(t, n, edges, g, nodes):
    from semantic_codec.static_analysis.dominators import build_dominator_tree
    tree = build_dominator_tree(g, nodes[0])
    idom = immediate(dominators(n, edges))
    want = sorted((p, i) for i, p in idom.items() if p is not None)
    t.equal(sorted((a.idx, b.idx) for a, b in tree.edges()), want, 'dominator tree of edges %s' % (edges,))
    t.equal(sorted(x.idx for x in tree.nodes()), list(range(n)), 'nodes of the dominator tree')
    for i in range(n):
        p = nodes[i].idom
        t.equal(None if p is None else p.idx, idom.get(i), 'immediate dominator of %d, edges %s' % (i, edges))
        t.equal(sorted(x.idx for x in nodes[i].dom_successors), sorted(k for k, v in idom.items() if v == i),
                'blocks immediately dominated by %d, edges %s' % (i, edges))
    t.check(g.has_computed_dominators, 'the graph does not know that its dominators are computed')
    t.step()
    t.state(n, tuple(want))
    t.sample(edges=edges, tree=want)


def all_graphs(t):
    n = t.int(1, 4) if t.tier == 'quick' else t.int(1, 5)
    edges = pick_edges(t, n, self_loops=n <= 4)
    compare(t, n, edges, *graph(n, edges))


def flow_graphs(t):
    """At most two ways out of a block, as in programs"""
    n = t.pick([5] if t.tier == 'quick' else [5, 6])
    edges = pick_edges(t, n, 2, self_loops=False, root_target=False)
    compare(t, n, edges, *graph(n, edges))


def chains(t):
    """A path through all the blocks, and any other way out of each of them: deep trees with many ways around"""
    n = 6 if t.tier == 'quick' else t.pick([6, 7])
    edges = [(i, i + 1) for i in range(n - 1)]
    for i in range(n):
        b = t.choose(n) or None
        if b is not None and b != i + 1:
            edges.append((i, b))
    compare(t, n, edges, *graph(n, edges))


def two_paths(t):
    """Two paths from the root, and any other way out of each block"""
    n = 6 if t.tier == 'quick' else t.pick([6, 7])
    half = t.int(2, n // 2)
    edges = [(0, 1), (0, half)] + [(i, i + 1) for i in range(1, n - 1) if i + 1 != half]
    for i in range(1, n):
        b = t.choose(n) or None
        if b is not None and (i, b) not in edges:
            edges.append((i, b))
    compare(t, n, edges, *graph(n, edges))


def again(t):
    """The graph changes between two computations"""
    n = 4
    edges = pick_edges(t, n, 2, self_loops=False, root_target=False)
    g, nodes = graph(n, edges)
    compare(t, n, edges, g, nodes)
    a, b = t.pick([(a, b) for a in range(n) for b in range(1, n)])
    if (a, b) in edges:
        g.del_edge((nodes[a], nodes[b]))
        edges = [e for e in edges if e != (a, b)]
    else:
        g.add_edge((nodes[a], nodes[b]))
        edges = edges + [(a, b)]
    compare(t, n, edges, g, nodes)


def deep(t):
    """Long programs"""
    n = t.pick([60, 400, 1500])
    shape = t.pick(['chain', 'loops', 'diamonds'])
    edges = [(i, i + 1) for i in range(n - 1)]
    idom = {i: i - 1 for i in range(1, n)}
    if shape == 'loops':
        edges += [(i, max(1, i - 7)) for i in range(8, n, 5)]
    if shape == 'diamonds':
        edges += [(i, i + 2) for i in range(0, n - 2, 2)]
        idom = {i: i - 1 if i % 2 else i - 2 for i in range(1, n)}
    from semantic_codec.static_analysis.dominators import build_dominator_tree
    g, nodes = graph(n, edges)
    tree = build_dominator_tree(g, nodes[0])
    t.equal(sorted((b.idx, a.idx) for a, b in tree.edges()), sorted(idom.items()), 'dominator tree of a %s of %d' % (shape, n))
    t.step()
    t.state(n, shape)


def examples(t):
    of_examples(t, lambda n, edges: compare(t, n, edges, *graph(n, edges)))


HARNESSES = [Harness('all-graphs', all_graphs, 'every graph of at most 4 blocks (thorough 5, without self loops), unreachable blocks included'),
             Harness('flow-graphs', flow_graphs, 'every graph of 5 (thorough 6) blocks with at most 2 successors each'),
             Harness('chains', chains, 'a path of 6 (thorough 7) blocks x any other way out of each, or none'),
             Harness('two-paths', two_paths, 'two paths from the root with 6 (7) blocks x any other way out of each, or none'),
             Harness('again', again, 'every graph of 4 blocks with at most 2 successors x every edge added or removed, computed before and after'),
             Harness('examples', examples, 'the graphs of the 8 programs of the repository and of every run of 24 (thorough also 12 and 48) of their words'),
             Harness('deep', deep, 'chains, nested loops and diamonds of up to 1500 blocks')]
