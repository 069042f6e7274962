"""Recovery scores: probabilities computed from the metadata, whatever the order of the candidates."""
from mc import real
from mc.core import Harness
from mc.programs import CODE, inst, BASE, encodings
from mc.recovering import originals, corrupted, one_function, collect, build

A = ['add r0,r0,r1', 'cmp r1,#0', 'moveq r0,#1', 'push {r4,lr}', 'pop {r4,pc}', 'bne -8', 'ldr r0,[r1]', 'str r0,[r1]', 'bx lr']


def scored(names, lists, n, addrs=None):
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    program = build(lists, addrs)
    functions = {addrs[0]: (addrs[0], addrs[-1])} if addrs else one_function(n)
    ProbabilisticRecuperator(collect(names, addrs), program, functions=functions).recover()
    return program


def check_scores(t, names, lists, places=None):
    from semantic_codec.metadata.recuperator import probabilistic_rules
    n = len(names)
    program = scored(names, lists, n, places)
    first = {}
    for a, v in program.items():
        for c in v:
            if c.ignore:
                continue
            s = c.score()
            t.check(0 <= s <= 1, 'score {} of {:x} at {:x}', s, c.encoding, a)
            for k, p in c.scores_by_rule.items():
                t.check(0 <= p <= 1, 'rule {} gives {}', k, p)
            first[a, c.encoding] = (s, dict(c.scores_by_rule))
            c.score_function = probabilistic_rules
            s = c.score()
            t.check(0 <= s <= 1, 'continuous score {} of {:x}', s, c.encoding)
    # the histogram terms, from scratch
    true = [x for x in (inst(x, BASE + 4 * i) for i, x in enumerate(names)) if not x.ignore]
    for field, key in ((lambda x: [x.conditional_field], 'pc'), (lambda x: [x.opcode_field], 'po'),
                       (lambda x: list(x.storages_used()), 'pr')):
        count, addrs = {}, {}
        for x in true:
            for f in field(x):
                count[f] = count.get(f, 0) + 1
        for a, v in program.items():
            seen = set()
            for c in v:
                if not c.ignore:
                    seen |= set(field(c))
            for f in seen:
                addrs[f] = addrs.get(f, 0) + 1
        for a, v in program.items():
            for c in v:
                if c.ignore or (key == 'pr' and (c.is_branch or c.is_push_pop)):
                    continue
                want = min(count.get(f, 0) / addrs[f] for f in field(c))
                got = c.scores_by_rule[key]
                t.check(abs(got - want) < 1e-12, 'program {} candidates {}: {} of {:x} is {}, expected {}', names, lists, key,
                        c.encoding, got, want)
    # scoring again changes nothing, and neither does listing the candidates in another order
    again = scored(names, [v[::-1] for v in lists], n, places)
    for a, v in again.items():
        for c in v:
            if not c.ignore:
                s, rules = first[a, c.encoding]
                t.check(c.score() == s and c.scores_by_rule == rules, 'the score of {:x} depends on the order of the candidates: '
                        '{} {} and {} {}', c.encoding, s, rules, c.score(), c.scores_by_rule)
    t.step(2)
    t.state(tuple(sorted((k, v[0]) for k, v in first.items())))
    t.sample(program=names, candidates=lists, scores=[[round(c.score(), 4) for c in v if not c.ignore] for v in again.values()])


def two(t):
    big = t.tier == 'thorough'
    alphabet = A if big else A[:7]
    names = originals(t, alphabet, 2)
    lists = [[x] + t.subset([a for a in alphabet + (['undefined'] if big else []) if a != x], 2 if i else 1) for i, x in enumerate(names)]
    check_scores(t, names, lists)


def three(t):
    big = t.tier == 'thorough'
    alphabet = ['push {r4,lr}', 'cmp r1,#0', 'moveq r0,#1', 'pop {r4,pc}'] + (['ldr r0,[r1]'] if big else [])
    names = originals(t, alphabet, 3)
    lists = [[x] + t.subset([a for a in alphabet + ['undefined'] if a != x], 1) for x in names]
    check_scores(t, names, lists)


def examples(t):
    """The functions of the programs of the repository, the same two bits of every word lost as a packet takes them"""
    from semantic_codec.corruption.corruption import corrupt_all_bits_tuples
    big = t.tier == 'thorough'
    functions = [f for f in real.functions(t.pick(real.PROGRAMS)) if len(f) <= (60 if big else 16)]
    f = functions[t.choose(len(functions))]
    cell = t.int(0, 29) if big else 2 * t.int(0, 14)         # the variants over bit 31 cannot be asked for
    lists = [list(corrupt_all_bits_tuples([(cell, cell + 2)], e)) for _, e in f]
    check_scores(t, [e for _, e in f], lists, [a for a, _ in f])


MANY = [0xe890007e, 0xe88003fe, 0xe92d5ff0, 0xe8bd9ff0]         # ldm r0,{r1-r6}, stm r0,{r1-r9}, push {r4-r12,lr}, pop {r4-r12,pc}


def wide(t):
    """Instructions that use many registers"""
    few = [CODE['add r0,r0,r1'], CODE['ldr r0,[r1]'], 0xe3a04001]
    n = t.int(2, 3)
    names = [t.pick(few[:2] + MANY if n == 3 and t.tier == 'quick' else few + MANY) for i in range(n)]
    at = t.int(-1, n - 1)
    lists = [[x] for x in names]
    if at >= 0:
        lists[at] += [t.pick([x for x in few + MANY if x != names[at]])]
    check_scores(t, names, lists)


def again(t):
    """Recovering what an earlier recovery left scores it as a fresh program with the same candidates"""
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    from recover_program import remove_bad_candidates_at_addr
    alphabet = ['push {r4,lr}', 'cmp r1,#0', 'moveq r0,#1', 'pop {r4,pc}', 'add r0,r0,r1', 'bne -8', 'ldr r0,[r1]']
    n = t.int(2, 3)
    alphabet = alphabet if n == 2 else alphabet[:5] if t.tier == 'thorough' else alphabet[:4]
    names = originals(t, alphabet, n)
    lists = [[x] + t.subset([a for a in alphabet + ['undefined'] if a != x], 2 if n == 2 and i else 1) for i, x in enumerate(names)]
    collector, functions = collect(names), one_function(n)
    program = build(lists)
    for k in range(4):
        ProbabilisticRecuperator(collector, program, functions=functions).recover()
        for v in program.values():
            for c in v:
                c.score()
        fresh = build([[c.encoding for c in v] for v in program.values()])
        ProbabilisticRecuperator(collect(names), fresh, functions=functions).recover()
        for v, w in zip(program.values(), fresh.values()):
            for c, d in zip(v, w):
                if not c.ignore:
                    t.check(c.score() == d.score() and c.scores_by_rule == d.scores_by_rule, 'program {}, candidates {}: in recovery {} the score of {:x} '
                            'is {} {}, without the earlier ones {} {}', names, lists, k + 1, c.encoding, c.score(), c.scores_by_rule, d.score(), d.scores_by_rule)
        t.step(2)
        if not sum(remove_bad_candidates_at_addr(v) for v in program.values()) and k:
            break
    t.state(tuple(tuple(c.encoding for c in v) for v in program.values()))
    t.sample(program=names, candidates=lists, recoveries=k + 1)


HARNESSES = [Harness('two-addresses', two, 'every program of 2 over 7 (thorough 9) instructions x every at most 1 and at most 2 wrong candidates'),
             Harness('three-addresses', three, 'every program of 3 over 4 (5) instructions x at most one wrong candidate, also undecodable'),
             Harness('examples', examples, 'the functions of at most 16 (thorough 60) words of the 8 programs of the repository x the same two bits of '
                     'each word lost'),
             Harness('wide', wide, 'every program of 2..3 over 7 (3: 6) words, 4 of which use 6..10 registers x at most one wrong candidate'),
             Harness('again', again, 'every program of 2..3 over 7, 4 (thorough 5) instructions x at most one wrong candidate per address (the last of 2: two), recovered until stable')]
