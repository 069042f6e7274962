"""The blocks of the control flow graph are the basic blocks of the program."""
from mc.core import Harness
from mc.flow import program, is_undefined, branch, text, condition, examples


def body(t):
    from semantic_codec.static_analysis.cfg import ARMControlFlowGraph, CFGBlock
    big = t.tier == 'thorough'
    n = t.int(0, 4)
    alphabet = ['mov', 'movne', '?', 'bx lr', 'blx r3', 'popeq pc']
    if n < 4 or big:
        alphabet += ['moveq', 'bl out', 'bxne lr']
    alphabet += [(b, k) for b in (['b', 'bne', 'bl', 'blne'] if n < 4 or big else ['b', 'bne', 'blne']) for k in range(n)]
    run(t, [t.pick(alphabet) for _ in range(n)])


def long_blocks(t):
    """Long runs of instructions with branches into them: blocks that are split several times"""
    n = t.int(5, 6 if t.tier == 'quick' else 8)
    ops = ['mov'] * n
    for i in t.subset(list(range(n)), 2):
        ops[i] = (t.pick(['b', 'bne', 'bl', 'blne']), t.choose(n))
    if t.bool():
        i = t.choose(n)
        ops[i] = ops[i] if not isinstance(ops[i], str) else t.pick(['?', 'movne'])
    run(t, ops)


def run(t, ops):
    from semantic_codec.static_analysis.cfg import ARMControlFlowGraph, CFGBlock
    n = len(ops)
    ins = program(ops)
    g = ARMControlFlowGraph(ins)
    got = g.build()
    t.check(got is g and g.cfg is g, 'the graph is not returned')
    t.step(n)
    if n == 0:
        return
    what = 'program %s' % text(ops)
    where = {}
    kinds = {}
    targets = {branch(o)[0] for o in ops if branch(o) and branch(o)[0] != 'out'}
    for b in g.nodes():
        kinds[b.kind] = kinds.get(b.kind, 0) + 1
        if b.kind != CFGBlock.BLOCK:
            t.check(not b.instructions, 'a special node holds instructions, {}', what)
            continue
        idx = []
        for x in b.instructions:
            k = [i for i, y in enumerate(ins) if y is x]
            t.check(len(k) == 1 and k[0] not in where, 'an instruction is in two blocks or foreign, {}', what)
            where[k[0]] = b
            idx.append(k[0])
        between = [i for i in range(idx[0], idx[-1] + 1) if not is_undefined(ops[i])]
        t.equal(idx, between, 'instructions of a block, %s' % what)
        for i in idx[:-1]:
            t.check(branch(ops[i]) is None, 'instruction {} branches from the middle of a block, {}', i, what)
        for i in idx[1:]:
            t.check(i not in targets, 'a branch goes to instruction {} in the middle of a block, {}', i, what)
        t.check(len({condition(ops[i]) for i in idx}) == 1,
                'a block mixes conditions, {}', what)
        t.check(b.first is b.instructions[0] and b.last is b.instructions[-1], 'first and last of a block')
    t.equal(sorted(where), [i for i, o in enumerate(ops) if not is_undefined(o)], 'instructions in blocks, %s' % what)
    t.check(kinds.get(CFGBlock.ROOT) == 1 and kinds.get(CFGBlock.END) == 1, 'root and end nodes: {}, {}', kinds, what)
    ids = [b.idx for b in g.nodes()]
    t.check(len(set(ids)) == len(ids) and all(g.get_dict_nodes()[b.idx] is b for b in g.nodes()), 'node indices, {}', what)
    t.state(tuple(sorted(tuple(i for i in where if where[i] is b) for b in set(where.values()))), n)
    t.sample(program=text(ops), blocks=sorted([i for i in where if where[i] is b] for b in set(where.values())))


def many(t):
    """Many branches to one instruction, before it and after it"""
    p = t.int(0, 6)
    q = t.int(0, 6)
    kind, last = t.pick(['b', 'bne', 'bl', 'beq']), t.pick(['b', 'bne'])
    n = p + 2 + q
    target = t.pick(sorted({p, p + 1, n - 1}))
    back = t.pick(sorted({0, p, p + 1}))
    ops = [(kind, target)] * p + ['mov', t.pick(['mov', 'movne'])] + [(last, back)] * q
    run(t, ops)


def late(t):
    """Conditional instructions and the targets of branches after hundreds of others"""
    n = t.pick([199, 200, 255, 256, 300] + ([998, 1000, 1001, 2047] if t.tier == 'thorough' else []))
    tail = [t.pick(['mov', 'movne']) for _ in range(3)]
    tail[t.pick([0, 1, 2])] = (t.pick(['b', 'bne']), n + t.int(0, 2))
    run(t, ['mov'] * n + tail + ['mov'] * t.int(0, 1))


def real_programs(t):
    examples(t, lambda ops: run(t, ops))


HARNESSES = [Harness('programs', body, 'every program of 0..4 instructions over 6..9 instructions and b, bne, bl, blne (4: b, bne, blne; thorough all) to each of its instructions'),
             Harness('long-blocks', long_blocks, 'every program of 5..6 (thorough 8) moves with 0..2 branches anywhere to anywhere and at most one '
                     'undecodable or conditional instruction'),
             Harness('late', late, '199..300 (thorough 2047) plain instructions, then 3, conditional or not, with a branch to one of them', cpu_limit=120),
             Harness('many', many, '0..6 branches of 4 kinds before two moves and 0..6 of 2 kinds after them, to each of 3 places'),
             Harness('examples', real_programs, 'the 8 programs of the repository, whole and every run of 1..6 (thorough 16) of their words')]
