"""Dominance frontiers and the placement of phi functions"""
from mc.core import Harness
from mc.graphs import graph, dominators, frontiers, pick_edges, of_examples
from mc.stubs import Stub


def compare(t, n, edges):
    from semantic_codec.static_analysis.dominators import build_dominator_tree
    from semantic_codec.static_analysis.ssa import build_dominance_frontier
    g, nodes = graph(n, edges)
    build_dominator_tree(g, nodes[0])
    build_dominance_frontier(g)
    want = frontiers(n, edges, dominators(n, edges))
    for i in range(n):
        t.equal(sorted(x.idx for x in nodes[i].dom_frontier), sorted(want[i]), 'frontier of %d, edges %s' % (i, edges))
    t.check(g.has_computed_dominance_frontier, 'the graph does not know that its frontiers are computed')
    t.step()
    t.state(n, tuple(tuple(sorted(want[i])) for i in range(n)))
    t.sample(edges=edges, frontiers={k: sorted(v) for k, v in want.items()})


def all_graphs(t):
    n = t.int(1, 4) if t.tier == 'quick' else t.int(1, 5)
    compare(t, n, pick_edges(t, n, self_loops=n <= 4))


def flow_graphs(t):
    n = t.pick([5] if t.tier == 'quick' else [5, 6])
    compare(t, n, pick_edges(t, n, 2, self_loops=False, root_target=False))


def requires_dominators(t):
    """Nothing is computed on a graph without dominators"""
    from semantic_codec.static_analysis.ssa import build_dominance_frontier, place_phi_nodes
    n = t.int(1, 3)
    g, nodes = graph(n, pick_edges(t, n))
    f = t.pick([build_dominance_frontier, place_phi_nodes])
    try:
        f(g)
    except RuntimeError:
        t.step()
        t.state(n, f.__name__)
        return
    t.check(False, '{} accepted a graph without dominators', f.__name__)


def examples(t):
    of_examples(t, lambda n, edges: compare(t, n, edges))


HARNESSES = [Harness('all-graphs', all_graphs, 'every graph of at most 4 blocks (thorough 5, without self loops), unreachable blocks included'),
             Harness('flow-graphs', flow_graphs, 'every graph of 5 (thorough 6) blocks with at most 2 successors each'),
             Harness('examples', examples, 'the graphs of the 8 programs of the repository and of every run of 24 (thorough also 12 and 48) of their words'),
             Harness('no-dominators', requires_dominators, 'graphs whose dominators are not computed are refused')]
