"""The neighbour term of the recovery"""
from mc.core import Harness
from mc.programs import CODE, inst, BASE
from mc.recovering import collect

A = ['add r0,r0,r1', 'moveq r0,#1', 'movne r0,#1', 'cmp r1,#0', 'cmpeq', 'subs r1,r1,#1', 'undefined']
WORDS = dict(CODE, cmpeq=0x03510000, addseq=0x00900001)
WORDS['adds pc,r0,r1'] = 0xe090f001
WORDS['addseq pc,r0,r1'] = 0x0090f001
FLAGS = {'cmp r1,#0', 'cmpeq', 'subs r1,r1,#1', 'addseq', 'adds pc,r0,r1', 'addseq pc,r0,r1'}
CONDITION = {'moveq r0,#1': 0, 'movne r0,#1': 1, 'cmpeq': 0, 'addseq': 0, 'addseq pc,r0,r1': 0, 'bne -8': 1, 'beq +8': 0}


def condition(x):
    return CONDITION.get(x, 14)


def expected(m, name, before, after):
    before, after = [[x for x in v if x != 'undefined'] for v in (before, after)]
    c = condition(name)
    part = lambda f, v: sum(1 for x in v if f(x)) / len(v) if v else 0
    same, flags = part(lambda x: condition(x) == c, before), part(lambda x: x in FLAGS, before)
    either, post = part(lambda x: condition(x) == c or x in FLAGS, before), part(lambda x: condition(x) == c, after)
    if c != 14 and same and flags:
        r = max(either * post * m.branch_after_cpsr_and_near_cond_are_equals, either * m.branch_after_cpsr_and_prev_cond_are_equals)
    elif c != 14 and flags:
        r = max(flags * post * m.branch_after_cpsr_and_after_cond_are_equals, flags * m.branch_after_cpsr)
    elif flags:
        r = flags * (1 - m.branch_after_cpsr)
    elif same:
        r = max(same * post * m.both_conditionals_are_equals, same * m.prev_conditionals_are_equals)
    elif c == 14:
        r = post * m.prev_conditionals_are_equals
    else:
        r = 0
    return r or m.low_probability


def body(t):
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    from semantic_codec.metadata.probabilistic_model import DefaultProbabilisticModel
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    big = t.tier == 'thorough'
    m = DefaultProbabilisticModel()
    if t.bool():
        m.both_conditionals_are_equals, m.prev_conditionals_are_equals, m.low_probability = 0.8, 0.15, 0.002
        m.branch_after_cpsr, m.branch_after_cpsr_and_after_cond_are_equals = 0.3, 0.7
        m.branch_after_cpsr_and_near_cond_are_equals, m.branch_after_cpsr_and_prev_cond_are_equals = 0.9, 0.2
    alphabet = A + (['addseq'] if big else [])
    def some(least, most, alphabet):
        v = t.subset(alphabet, most)
        if len(v) < least:
            t.prune()
        return v
    before, after = some(0, 3, alphabet + ['adds pc,r0,r1', 'addseq pc,r0,r1']), some(0, 2 if big else 1, alphabet)
    # Without candidates before or after the address there is nothing there
    gap = t.pick([0, 4]) if before and after else 0
    mid = t.pick([[x] for x in alphabet if x != 'undefined'] + [['moveq r0,#1', 'add r0,r0,r1'], ['undefined', 'bne -8']])
    if t.bool():
        before, after = before[::-1], after[::-1]
    a = BASE + 8
    lists = {a - 8: ['add r0,r0,r1']}
    if before:
        lists[a - 4 - gap] = before
    lists[a] = mid
    if after:
        lists[a + 4 + gap] = after
    program = {k: [inst(WORDS[x], k) for x in v] for k, v in lists.items()}
    c = MetadataCollector()
    c.collect([[x for x in v if not x.ignore][0] for v in program.values() if [x for x in v if not x.ignore]])
    functions = {a - 8: (a - 8, max(lists))}
    if t.bool():
        program = {k: program[k] for k in sorted(program, reverse=True)}
    ProbabilisticRecuperator(c, program, m, functions).recover()
    t.check(all('pcfg' not in x.scores_by_rule for x in program[a - 8]), 'the first instruction has a neighbour term')
    for k in sorted(lists)[1:]:
        for name, x in zip(lists[k], program[k]):
            if name == 'undefined':
                continue
            want = expected(m, name, lists.get(k - 4, []), lists.get(k + 4, []))
            got = x.scores_by_rule.get('pcfg')
            t.check(got is not None and abs(got - want) < 1e-12, 'after {} and before {}: the neighbour term of {} is {}, expected {}',
                    lists.get(k - 4), lists.get(k + 4), name, got, want)
    t.step()
    t.state(tuple(round(x.scores_by_rule.get('pcfg', -1), 9) for k in sorted(program) for x in program[k]))
    t.sample(before=before, candidates=mid, after=after)


def numerous(t):
    """Dozens of candidates before and after"""
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    from semantic_codec.metadata.probabilistic_model import DefaultProbabilisticModel
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    kinds = ['add r0,r0,r1', 'moveq r0,#1', 'subs r1,r1,#1', 'addseq', 'undefined']
    most = [0, 1, 3, 9, 40] if t.tier == 'thorough' else [0, 1, 3, 9]
    before = [(x, k) for x in kinds for k in range(t.pick(most + [33] * (x == 'moveq r0,#1' and t.tier == 'quick') if x != 'undefined' else [0, 5]))]
    after = [(x, k) for x in kinds[:2] for k in range(t.pick([1, 9]))]
    mid = [('add r0,r0,r1', 0), ('moveq r0,#1', 0), ('movne r0,#1', 0)]
    if not before:
        t.prune()
    a = BASE + 8
    lists = {a - 8: [('add r0,r0,r1', 0)], a - 4: before, a: mid, a + 4: after}
    # other words of the same kind: other immediates and registers; those that do not decode are all the same
    program = {k: [inst(WORDS[x] + (0 if x == 'undefined' else i % 12 | i // 12 << 12), k) for x, i in v] for k, v in lists.items()}
    c = MetadataCollector()
    c.collect([next((x for x in v if not x.ignore), v[0]) for v in program.values()])
    m = DefaultProbabilisticModel()
    if t.bool():
        m.both_conditionals_are_equals, m.prev_conditionals_are_equals = 0.8, 0.15
        m.branch_after_cpsr_and_near_cond_are_equals, m.branch_after_cpsr_and_prev_cond_are_equals = 0.9, 0.2
    ProbabilisticRecuperator(c, program, m, {a - 8: (a - 8, a + 4)}).recover()
    names = {k: [x for x, _ in v] for k, v in lists.items()}
    for name, x in zip(names[a], program[a]):
        want = expected(m, name, names[a - 4], names[a + 4])
        got = x.scores_by_rule.get('pcfg')
        t.check(got is not None and abs(got - want) < 1e-12, 'after {} and before {}: the neighbour term of {} is {}, expected {}',
                {k: names[a - 4].count(k) for k in kinds}, {k: names[a + 4].count(k) for k in kinds}, name, got, want)
    t.step()
    t.state(tuple(names[a - 4].count(k) for k in kinds), len(after))
    t.sample(before=len(before), after=len(after))


HARNESSES = [Harness('neighbours', body, 'every set of at most 3 candidates before and 1 (thorough 2) after of 9 and 7 (10 and 8) words, next to the address or not, none too x '
                     '8 (9) candidates x 2 models x any order of the candidates and of the addresses'),
             Harness('numerous', numerous, '0..9 (thorough 40; of one kind 33) candidates of each of 4 kinds before, and 0 or 5 that do not decode; 1 or 9 of 2 kinds after')]
