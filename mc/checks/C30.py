"""The edges of the control flow graph are the control transfers of the program."""
from mc.core import Harness
from mc.flow import program, transfers, text, is_undefined, branch, examples, given_words


def names_of(t, g, ins, what):
    """node -> index of the instruction that the control arriving at the node faces first"""
    from semantic_codec.static_analysis.cfg import CFGBlock
    pos = {id(x): i for i, x in enumerate(ins)}
    res, guard_of = {}, {}
    for b in g.nodes():
        if b.kind == CFGBlock.BLOCK:
            i = pos[id(b.first)]
            if b.first.conditional_field != 14:
                conds = [c for c in g.incidents(b) if c.kind == CFGBlock.COND]
                t.check(len(conds) == 1 and len(g.incidents(b)) == 1,
                        'the conditional block of instruction {} is entered without its condition, {}', i, what)
                t.check(conds[0] not in res, 'a conditional node guards two blocks, {}', what)
                res[conds[0]] = i
                guard_of[b] = conds[0]
            else:
                res[b] = i
    return res, guard_of, pos


def body(t):
    from semantic_codec.static_analysis.cfg import ARMControlFlowGraph, CFGBlock
    big = t.tier == 'thorough'
    n = t.int(1, 4)
    alphabet = ['mov', 'movne', '?', 'bx lr', 'blx r3']
    if n < 4 or big:
        alphabet += ['moveq', 'popeq pc', 'cmpne', 'blxne r3']
    alphabet += [(b, k) for b in (['b', 'bne', 'bl', 'blne'] if n < 4 or big else ['b', 'bne', 'bl'])
                 for k in range(n)]
    ops = [t.pick(alphabet) for _ in range(n)]
    if any(branch(o) and branch(o)[0] != 'out' and is_undefined(ops[branch(o)[0]]) for o in ops):
        t.prune()     # a branch into data
    run(t, ops)


def run(t, ops):
    from semantic_codec.static_analysis.cfg import ARMControlFlowGraph, CFGBlock
    n = len(ops)
    what = 'program %s' % text(ops)
    ins = program(ops)
    g = ARMControlFlowGraph(ins)
    g.build()
    t.step(n)
    want, start = transfers(ops)
    face, guard_of, pos = names_of(t, g, ins, what)

    def at(node):
        if node.kind == CFGBlock.END:
            return 'end'
        if node.kind == CFGBlock.UNKNOWN_BRANCH:
            return 'out'
        t.check(node in face, 'control arrives at a node that is no instruction, {}', what)
        return face[node]
    t.equal({at(s) for s in g.neighbors(g.root_node)}, {start}, 'start of %s' % what)
    end = [b for b in g.nodes() if b.kind == CFGBlock.END][0]
    t.equal(g.neighbors(end), [], 'successors of the end, %s' % what)
    for b in g.nodes():
        if b.kind != CFGBlock.BLOCK:
            continue
        i = pos[id(b.last)]
        taken, skipped = want[i]
        got = set()
        for s in g.neighbors(b):
            got.add(at(s))
            if s.kind == CFGBlock.UNKNOWN_BRANCH:
                t.equal(g.incidents(s), [b], 'blocks that share an unknown target, %s' % what)
                back = {at(x) for x in g.neighbors(s)}
                t.check('end' in back, 'an unknown target leads nowhere, {}', what)
                if branch(ops[i])[1]:
                    got |= back - {'end'}
                    if taken - {'out'} == {'end'}:
                        got.add('end')
                else:
                    t.equal(back, {'end'}, 'control after a branch out of the program, %s' % what)
        t.equal(got, taken, 'control after instruction %d of %s' % (i, what))
        if b in guard_of:
            # the block is skipped as a whole
            others = {at(s) for s in g.neighbors(guard_of[b]) if s is not b}
            t.equal(others, skipped, 'control when instruction %d of %s is not executed' % (i, what))
    t.state(tuple(sorted((str(k), tuple(sorted(map(str, v[0])))) for k, v in want.items())))
    t.sample(program=text(ops), transfers={k: (sorted(map(str, v[0])), v[1] and sorted(map(str, v[1]))) for k, v in want.items()})


def conditionals(t):
    """Longer runs of conditional instructions"""
    ops = [t.pick(['mov', 'movne', 'moveq', 'cmpne', 'bne out', ('bne', 1), ('beq', 3), ('b', 0)]) for _ in range(5)]
    run(t, ops)


def long_blocks(t):
    """Long runs of instructions with branches into them: blocks that are split several times"""
    n = t.int(5, 6 if t.tier == 'quick' else 8)
    ops = ['mov'] * n
    for i in t.subset(list(range(n)), 2):
        ops[i] = (t.pick(['b', 'bne', 'bl']), t.choose(n))
    i = t.choose(n + 1)
    if i < n and isinstance(ops[i], str):
        ops[i] = 'movne'
    run(t, ops)


def many(t):
    """Many branches to one instruction, before it and after it"""
    p = t.int(0, 6)
    q = t.int(0, 6)
    kind, last = t.pick(['b', 'bne', 'bl', 'beq']), t.pick(['b', 'bne'])
    n = p + 2 + q
    target = t.pick(sorted({p, p + 1, n - 1}))
    back = t.pick(sorted({0, p, p + 1}))
    ops = [(kind, target)] * p + ['mov', t.pick(['mov', 'movne'])] + [(last, back)] * q
    run(t, ops)


def far(t):
    """Branches out of the program, of every form"""
    form = t.pick(['b', 'bl', 'register', 'others'])
    condition = t.pick([14, 1, 13])
    if form in ('b', 'bl'):
        bit = t.int(8, 23)
        offset = (1 << bit) ^ (0xffffff if t.bool() else 0)
        e = (0xa if form == 'b' else 0xb) << 24 | offset
    elif form == 'register':
        e = t.pick([0x012fff10, 0x012fff30]) | t.int(0, 14)
    else:
        r = t.int(0, 14)
        e = t.pick([0x08bd8000 | 1 << r, 0x01a0f000 | r, 0x0590f000 | r << 16])
    ops = given_words([0xe3a00001] * t.int(0, 1) + [condition << 28 | e] + [0xe3a00001] * t.int(0, 1))
    run(t, ops)


def removed(t):
    """Without the conditional nodes the flows between the blocks remain"""
    from semantic_codec.static_analysis.cfg import ARMControlFlowGraph, CFGBlock
    n = t.int(1, 4)
    ops = [t.pick(['mov', 'movne', 'moveq', 'bxne lr'] + [(b, k) for b in ('b', 'bne') for k in range(n)]) for _ in range(n)]
    g = ARMControlFlowGraph(program(ops))
    g.build()
    solid = [b for b in g.nodes() if b.kind != CFGBlock.COND]
    want = set()
    for b in solid:
        todo, seen = list(g.neighbors(b)), set()
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            if s.kind == CFGBlock.COND:
                todo.extend(g.neighbors(s))
            else:
                want.add((b.idx, s.idx))
    g.remove_conditionals()
    t.step(n)
    t.equal(sorted(b.idx for b in g.nodes()), sorted(b.idx for b in solid), 'nodes without conditionals, program %s' % text(ops))
    t.equal(sorted((a.idx, b.idx) for a, b in g.edges()), sorted(want), 'edges without conditionals, program %s' % text(ops))
    t.state(tuple(sorted(want)))
    t.sample(program=text(ops), edges=sorted(want))


def prefix(t):
    """Only the first instructions are asked for: the graph is that of a program made of them"""
    from semantic_codec.static_analysis.cfg import ARMControlFlowGraph
    n = t.int(1, 3 if t.tier == 'quick' else 4)
    ops = [t.pick(['mov', 'movne', '?', 'bx lr', 'blx r3', 'cmpne'] + [(b, k) for b in ('b', 'bne', 'bl') for k in range(n)])
           for _ in range(n)]
    k = t.int(0, n)
    to = [branch(o)[0] for o in ops[:k] if branch(o)]
    if any(i != 'out' and (i >= k or is_undefined(ops[i])) for i in to):
        t.prune()     # a branch to what was not asked for, or into data

    def drawn(ins, *count):
        g = ARMControlFlowGraph(ins)
        g.build(*count)
        pos = {id(x): i for i, x in enumerate(ins)}
        return (sorted((b.idx, b.kind, [pos[id(x)] for x in b.instructions]) for b in g.nodes()),
                sorted((a.idx, b.idx) for a, b in g.edges()))
    got, want = drawn(program(ops), k), drawn(program(ops)[:k])
    if k == 0:
        # a program without instructions has not even an end
        t.check(not [b for b in got[0] if b[2]], 'blocks of the first 0 instructions of {}', text(ops))
    else:
        t.equal(got, want, 'graph of the first %d instructions of %s' % (k, text(ops)))
    t.step(k)
    t.state(str(want))


def late(t):
    """Conditional instructions and the targets of branches after hundreds of others"""
    n = t.pick([199, 200, 255, 256, 300] + ([998, 1000, 1001, 2047] if t.tier == 'thorough' else []))
    tail = [t.pick(['mov', 'movne']) for _ in range(3)]
    tail[t.pick([0, 1, 2])] = (t.pick(['b', 'bne']), n + t.int(0, 2))
    run(t, ['mov'] * n + tail + ['mov'] * t.int(0, 1))


def real_programs(t):
    examples(t, lambda ops: run(t, ops))


HARNESSES = [Harness('programs', body, 'every program of 1..4 instructions over 5..9 instructions and b, bne, bl, blne (4: without blne) to each of its instructions'),
             Harness('conditionals', conditionals, 'every program of 5 over 8 conditional instructions and branches'),
             Harness('long-blocks', long_blocks, 'every program of 5..6 (thorough 8) moves with 0..2 branches anywhere to anywhere and at most one '
                     'conditional instruction'),
             Harness('late', late, '199..300 (thorough 2047) plain instructions, then 3, conditional or not, with a branch to one of them', cpu_limit=120),
             Harness('many', many, '0..6 branches of 4 kinds before two moves and 0..6 of 2 kinds after them, to each of 3 places'),
             Harness('far', far, 'branches out of the program in every bit of the offset, to every register, and by writes of the program counter of 3 kinds, alone, first, last and in the middle, in 3 conditions'),
             Harness('prefix', prefix, 'the first 0..n instructions of every program of n = 1..3 (thorough 4) over 6 instructions and b, bne, bl to each '
                     'of its instructions'),
             Harness('removed', removed, 'every program of 1..4 over 4 instructions and b, bne to each of its instructions'),
             Harness('examples', real_programs, 'the 8 programs of the repository, whole and every run of 1..6 (thorough 16) of their words')]
