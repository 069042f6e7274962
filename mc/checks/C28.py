"""SSA form: every read names the one definition that reaches it on every path."""
from mc.core import Harness
from mc.graphs import graph, reachable, pick_edges
from mc.stubs import Stub

X, Y = 4, 5
# reads, writes
OPS = {'': (), 'w': ((), (X,)), 'r': ((X,), ()), 'm': ((X,), (X,)), 'c': ((X,), (Y,)), 'y': ((Y,), (X,)), 'd': ((), (Y,)),
       'u': ((Y,), ()), 'f': ((77,), (77,))}


def mk(ops, base, names=(X, Y)):
    as_named = {X: names[0], Y: names[1]}

    def named(storages):
        return [as_named.get(v, v) for v in storages]
    return [Stub(base * 16 + k, base * 16 + k, named(OPS[o][0]), named(OPS[o][1])) for k, o in enumerate(ops)]


def verify(t, nodes, edges, deps, what):
    """nodes: list of blocks by idx, edges between the idx"""
    n = len(nodes)
    live = reachable(n, edges)
    defs = {}
    for i in live:
        for v in nodes[i].phi_functions:
            defs[v] = defs.get(v, 0) + 1
        for ins in nodes[i].instructions:
            t.equal(sorted(v for v, _ in ins.ssa_written), sorted(ins.storages_written()), 'named writes, %s' % what)
            t.equal(sorted(v for v, _ in ins.ssa_read), sorted(set(ins.storages_read())), 'named reads, %s' % what)
            for v in ins.ssa_written:
                defs[v] = defs.get(v, 0) + 1
    for v, c in defs.items():
        t.check(c == 1, '{} is defined {} times, {}', v, c, what)
        t.check(v[1] > 0, '{} is defined, 0 is the initial value, {}', v, what)
    # versions that reach the end of every block, by propagation over the paths
    variables = {v for v, _ in defs} | {v for i in live for ins in nodes[i].instructions for v in ins.storages_read()}
    after = {i: {v: set() for v in variables} for i in live}
    def enter(i, v):
        phi = [p for p in nodes[i].phi_functions if p[0] == v]
        if phi:
            return {phi[0]}
        res = {(v, 0)} if i == 0 else set()
        for a, b in edges:
            if b == i and a in live:
                res |= after[a][v]
        return res
    changed = True
    while changed:
        changed = False
        for i in live:
            for v in variables:
                cur = enter(i, v)
                for ins in nodes[i].instructions:
                    for w in ins.ssa_written:
                        if w[0] == v:
                            cur = {w}
                if cur - after[i][v]:
                    after[i][v] |= cur
                    changed = True
    want = set()
    for i in live:
        cur = {v: enter(i, v) for v in variables}
        for p, args in nodes[i].phi_functions.items():
            reach = {(v, k) for a, b in edges if b == i and a in live for v, k in after[a][p[0]]}
            t.equal(sorted(set(args)), sorted(reach), 'arguments of the phi %s of block %d, %s' % (p, i, what))
            want |= {(a, p) for a in args}
        for ins in nodes[i].instructions:
            for r in ins.ssa_read:
                t.equal(cur[r[0]], {r}, 'definitions that reach the read of %s in block %d (named %s), %s' % (r[0], i, r, what))
            for w in ins.ssa_written:
                want |= {(r, w) for r in ins.ssa_read}
                cur[w[0]] = {w}
    t.equal(sorted(deps.edges()), sorted(want), 'value dependencies, %s' % what)
    for v in defs:
        t.check(v in deps, 'the definition {} is not in the dependency graph, {}', v, what)
    t.state(tuple(sorted(want)), n)
    return want


def build(t, n, edges, ops, names=(X, Y)):
    from semantic_codec.static_analysis.ssa import SSAFormBuilder
    instructions = [mk(o, i, names) for i, o in enumerate(ops)]
    g, nodes = graph(n, edges, instructions)
    deps = SSAFormBuilder([x for b in instructions for x in b], g, nodes[0]).build()
    t.step(1 + sum(len(o) for o in ops))
    want = verify(t, nodes, edges, deps, 'edges %s blocks %s' % (edges, ops))
    t.sample(edges=edges, blocks=ops, dependencies=sorted(want))


def three(t):
    edges = pick_edges(t, 4, 3 if t.tier != 'quick' else 2, root_target=False)
    ops = [''] + [t.pick(['', 'w', 'r', 'm'] if t.tier != 'quick' else ['w', 'r', 'm']) for _ in range(3)]
    build(t, 4, edges, ops, (16, 17))        # the memory


def two(t):
    """Two variables, blocks of two instructions"""
    edges = pick_edges(t, 3, 2, root_target=False)
    alphabet = ['w', 'r', 'm', 'c', 'y', 'd', 'f']
    ops = [''] + [''.join(t.seq(alphabet, 1, 2)) for _ in range(2)]
    build(t, 3, edges, ops, (0, 16))         # the first register and the memory


def four(t):
    """Nested loops and diamonds"""
    shape = t.pick([
        [(0, 1), (1, 2), (2, 1), (2, 3), (3, 1), (3, 4)],                      # nested loops
        [(0, 1), (1, 2), (1, 3), (2, 4), (3, 4)],                              # diamond
        [(0, 1), (1, 2), (1, 3), (2, 4), (3, 4), (4, 1)],                      # diamond in a loop
        [(0, 1), (0, 2), (1, 2), (2, 1), (1, 3), (2, 4), (3, 4)],              # irreducible
        [(0, 1), (1, 2), (2, 2), (2, 3), (3, 1), (3, 4), (4, 2)],              # loops that cross
        [(0, 1), (0, 4), (1, 2), (2, 3), (3, 3), (4, 3), (2, 1)],              # joins of different depth
        [(0, 1), (1, 3), (2, 3), (3, 4), (2, 2), (4, 3)],                      # unreachable block
    ])
    ops = [''] + [t.pick(['', 'w', 'r', 'm', 'rw', 'wr', 'c', 'd'] if t.tier != 'quick' else ['', 'w', 'm', 'wr', 'c'])
                  for _ in range(4)]
    build(t, 5, shape, ops)


def nested(t):
    """Diamonds in diamonds and loops in loops: what is written deep inside meets the rest at every level"""
    depth = t.int(2, 6 if t.tier == 'quick' else 8)
    kind = t.pick(['diamonds', 'loops', 'exits'])
    edges = [(0, 1)]
    if kind == 'diamonds':
        # 1..depth begin, depth + 1 is inside, depth + 2.. join from the inner to the outer
        for i in range(1, depth + 1):
            join = 2 * depth + 2 - i
            edges += [(i, i + 1), (i, join), (join, join + 1)]
        edges.append((depth + 1, depth + 2))
        n = 2 * depth + 3
    elif kind == 'loops':
        # a header for each level, the inmost block, a latch for each level
        for i in range(1, depth + 1):
            latch = 2 * depth + 2 - i
            edges += [(i, i + 1), (latch, i), (latch, latch + 1)]
        edges.append((depth + 1, depth + 2))
        n = 2 * depth + 3
    else:
        # one loop with a way out, and back, from every block
        edges += [(i, i + 1) for i in range(1, depth + 2)] + [(i, 1) for i in range(2, depth + 2)] + [(i, depth + 2) for i in range(1, depth + 1)]
        n = depth + 3
    ops = [''] * n
    for i in t.subset(list(range(1, n)), 2):
        ops[i] = t.pick(['w', 'm', 'c'])
    reader = t.choose(n)
    if reader:
        ops[reader] += 'r'
    else:
        ops = [''] + [o + 'r' for o in ops[1:]]
    build(t, n, sorted(set(e for e in edges if e[1] < n)), ops)


def programs(t):
    """From the instructions of a program"""
    from mc.programs import listing
    names = [t.pick(['add r0,r0,r1', 'moveq r0,#1', 'str r0,[r1]', 'ldr r0,[r1]', 'b +8', 'bne -8', 'beq +8', 'bl -8'])
             for _ in range(t.int(1, 4 if t.tier == 'quick' else 5))]
    of_program(t, listing(names), t.bool(), names)
    t.sample(program=names)


def of_program(t, instructions, without, names):
    from semantic_codec.static_analysis.cfg import ARMControlFlowGraph
    from semantic_codec.static_analysis.ssa import SSAFormBuilder
    cfg = ARMControlFlowGraph(instructions)
    cfg.build()
    if without:
        cfg.remove_conditionals()
    order = [cfg.root_node] + [x for x in cfg.nodes() if x is not cfg.root_node]
    pos = {x: i for i, x in enumerate(order)}
    edges = [(pos[a], pos[b]) for a, b in cfg.edges()]
    deps = SSAFormBuilder(instructions, cfg, cfg.root_node).build()
    t.step(len(names))
    verify(t, order, edges, deps, 'program %s%s' % (names, ' without conditional nodes' if without else ''))


def examples(t):
    from mc import flow
    without = t.bool()
    flow.examples(t, lambda ops: of_program(t, flow.program(ops), without, flow.text(ops)), 6 if t.tier == 'quick' else 12)


def again(t):
    """The program changes between one SSA form and the next, over the same instructions"""
    from semantic_codec.static_analysis.ssa import SSAFormBuilder
    edges = [pick_edges(t, 3, 2, root_target=False) for _ in range(2)]
    ops = [''] + [t.pick(['w', 'm', 'cr'] if t.tier == 'quick' else ['w', 'r', 'm', 'cr', 'y']) for _ in range(2)]
    same = t.bool()                                     # the same nodes, or others with the same instructions
    instructions = [mk(o, i, (0, 16)) for i, o in enumerate(ops)]
    g, nodes = graph(3, edges[0], instructions)
    SSAFormBuilder([x for b in instructions for x in b], g, nodes[0]).build()
    if same:
        for e in [(a, b) for a, b in g.edges()]:
            g.del_edge(e)
        for a, b in edges[1]:
            g.add_edge((nodes[a], nodes[b]))
    else:
        g, nodes = graph(3, edges[1], instructions)
    deps = SSAFormBuilder([x for b in instructions for x in b], g, nodes[0]).build()
    t.step(6)
    verify(t, nodes, edges[1], deps, 'edges %s, before %s, blocks %s' % (edges[1], edges[0], ops))


def long_program(t):
    from semantic_codec.static_analysis.ssa import SSAFormBuilder
    n = t.pick([300, 1300])
    edges = [(i, i + 1) for i in range(n - 1)] + ([(i, i + 2) for i in range(0, n - 2, 2)] if t.bool() else [])
    instructions = [[]] + [mk('m', i) for i in range(1, n)]
    g, nodes = graph(n, edges, instructions)
    SSAFormBuilder([x for b in instructions for x in b], g, nodes[0]).build()
    seen = set()
    for b in nodes:
        for ins in b.instructions:
            t.check(len(ins.ssa_written) == 1 and ins.ssa_written[0] not in seen, 'block {} has no name of its own', b.idx)
            seen.add(ins.ssa_written[0])
    t.step(n)
    t.state(n, len(edges))


HARNESSES = [Harness('three-blocks', three, 'every graph of a root and 3 blocks with at most 2 (3) successors x write, read or modify in each block'),
             Harness('two-blocks', two, 'every graph of a root and 2 blocks x every 1..2 of 7 instructions over two variables in each'),
             Harness('shapes', four, 'loops, diamonds, irreducible and unreachable shapes of 5 blocks x 5 (8) contents of each'),
             Harness('nested', nested, 'diamonds in diamonds, loops in loops and loops with many exits, 2..6 (8) deep, any 2 blocks that write, read or copy, one or all that read'),
             Harness('programs', programs, 'every program of 1..4 (5) over 8 instructions, with and without the conditional nodes'),
             Harness('examples', examples, 'the 8 programs of the repository, whole and every run of 1..6 (thorough 12) of their words, with '
                     'and without the conditional nodes', cpu_limit=60),
             Harness('again', again, 'every two graphs of a root and 2 blocks x 3 (5) contents of each, one after the other over the same '
                     'instructions, in the same nodes or in others'),
             Harness('long', long_program, '1300 blocks, one after the other')]
