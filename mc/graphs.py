"""Small control flow graphs, and the textbook definitions of what is computed on them"""


def graph(n, edges, instructions=None):
    """Nodes 0..n-1, 0 is the root"""
    from semantic_codec.static_analysis.cfg import ARMControlFlowGraph, CFGBlock
    g = ARMControlFlowGraph([])
    nodes = []
    for i in range(n):
        ins = instructions[i] if instructions else []
        b = CFGBlock(list(ins), kind=CFGBlock.ROOT if i == 0 else (CFGBlock.BLOCK if ins else CFGBlock.COND))
        b.idx = i
        g.add_node(b)
        nodes.append(b)
    for a, b in edges:
        g.add_edge((nodes[a], nodes[b]))
    return g, nodes


def reachable(n, edges, without=None, root=0):
    succ = {i: [] for i in range(n)}
    for a, b in edges:
        succ[a].append(b)
    seen, todo = set(), [root] if root != without else []
    while todo:
        x = todo.pop()
        if x in seen or x == without:
            continue
        seen.add(x)
        todo.extend(succ[x])
    return seen


def dominators(n, edges):
    """node -> set of the nodes on every path from the root to it (itself included); only reachable nodes"""
    live = reachable(n, edges)
    dom = {i: set() for i in live}
    for d in live:
        cut = reachable(n, edges, without=d)
        for i in live:
            if i == d or i not in cut:
                dom[i].add(d)
    return dom


def immediate(dom):
    idom = {}
    for i, ds in dom.items():
        strict = ds - {i}
        idom[i] = None
        for d in strict:
            if all(o in dom[d] for o in strict):
                idom[i] = d
    return idom


def frontiers(n, edges, dom):
    res = {i: set() for i in range(n)}
    for i in dom:
        for a, b in edges:
            if a in dom and i in dom[a] and not (i in dom[b] and i != b):
                res[i].add(b)
    return res


def pick_edges(t, n, out_degree=None, self_loops=True, root_target=True):
    edges = []
    for a in range(n):
        targets = [b for b in range(n) if (self_loops or a != b) and (root_target or b)]
        edges.extend((a, b) for b in t.subset(targets, out_degree))
    return edges


def of_examples(t, use):
    """The control flow graphs of the programs of the repository, and of the runs of 24 (thorough 12, 24 and 48) of their words"""
    from mc import flow, real
    from semantic_codec.static_analysis.cfg import ARMControlFlowGraph
    name = t.pick(real.PROGRAMS)
    words = real.words(name)
    start = t.choose(len(words) + 1)
    if start == len(words):
        parts = [words]
    else:
        parts = [p for p in real.windows(name, start, 24 if t.tier == 'quick' else 48) if len(p) in ((24,) if t.tier == 'quick' else (12, 24, 48))]
    for part in parts:
        g = ARMControlFlowGraph(flow.program(flow.given_words([e for _, e in part])))
        g.build()
        order = [g.root_node] + [x for x in g.nodes() if x is not g.root_node]
        pos = {x: i for i, x in enumerate(order)}
        use(len(order), sorted((pos[a], pos[b]) for a, b in g.edges()))
