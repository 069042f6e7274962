"""The push and pop term of the recovery"""
from mc.core import Harness
from mc.programs import inst
from mc.recovering import collect

WORDS = {'push {r4,lr}': 0xe92d4010, 'push {r4,r5,lr}': 0xe92d4030, 'push {r4,r5}': 0xe92d0030, 'pop {r4,pc}': 0xe8bd8010, 'pop {r4,lr}': 0xe8bd4010,
         'pop {r4,r5,pc}': 0xe8bd8030, 'pop {r4,r5}': 0xe8bd0030, 'pop {r4,r5,lr}': 0xe8bd4030, 'bx lr': 0xe12fff1e, 'nop': 0xe1a00000, 'undefined': 0xffffffff}
PUSH = {'push {r4,lr}': {4, 'lr'}, 'push {r4,r5,lr}': {4, 5, 'lr'}, 'push {r4,r5}': {4, 5}}
POP = {'pop {r4,pc}': {4, 'pc'}, 'pop {r4,lr}': {4, 'lr'}, 'pop {r4,r5,pc}': {4, 5, 'pc'}, 'pop {r4,r5}': {4, 5}, 'pop {r4,r5,lr}': {4, 5, 'lr'}}
BRANCH = ['bx lr', 'pop {r4,pc}', 'pop {r4,r5,pc}']
BASE = 0x10000


def equal(push, pop):
    """What the pop restores was pushed, the return address may go to the PC"""
    return POP[pop] - {'pc'} <= PUSH[push] and PUSH[push] - {'lr'} <= POP[pop]


def expected(m, lists, i, name, lo, hi):
    """The values allowed for the term, or None for no term"""
    if name not in PUSH and name not in POP:
        return None
    chance = {1 / len(lists[i]), 1 / len([x for x in lists[i] if x != 'undefined'])}
    ends, middle = [], [False]
    if name in PUSH:
        if i != lo:
            return chance
        ends = [x for x in lists[hi] if x in POP]
        same = any(equal(name, x) for x in ends)
        body = lists[lo + 1:hi + 1]
        pops = [k for k, v in enumerate(body) if any(x in POP for x in v)]
        branches = [k for k, v in enumerate(body) if any(x in BRANCH for x in v)]
        if any(k + 1 in branches for k in pops):
            middle = [True]
        elif pops and branches and max(branches) > 0:
            middle = [False, True]          # not said what counts when other instructions are between them
    else:
        ends = [x for x in lists[lo] if x in PUSH]
        same = any(equal(x, name) for x in ends)
    return {max(m.push_given_pop_at_fn_end_equal_registers if same else c, m.push_given_pop_at_fn_end if ends else 0,
                m.push_given_pop_at_fn_middle if k else 0) for c in chance for k in middle}


def recover(lists, names, functions, model):
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    program = {BASE + 4 * i: [inst(WORDS[x], BASE + 4 * i) for x in v] for i, v in enumerate(lists)}
    c = MetadataCollector()
    c.collect([inst(WORDS[x], BASE + 4 * i) for i, x in enumerate(names)])
    ProbabilisticRecuperator(c, program, model, functions).recover()
    return program


def models(t):
    from semantic_codec.metadata.probabilistic_model import DefaultProbabilisticModel
    m = DefaultProbabilisticModel()
    k = t.int(0, 2)
    if k == 1:
        m.push_given_pop_at_fn_end_equal_registers, m.push_given_pop_at_fn_end, m.push_given_pop_at_fn_middle = 0.9, 0.2, 0.6
    elif k == 2:
        m.push_given_pop_at_fn_end_equal_registers, m.push_given_pop_at_fn_end, m.push_given_pop_at_fn_middle = 0.35, 0.45, 0.55
    return m


def check(t, lists, lengths, m):
    functions, lo = {}, 0
    for n in lengths:
        functions[BASE + 4 * lo] = (BASE + 4 * lo, BASE + 4 * (lo + n - 1))
        lo += n
    program = recover(lists, [[x for x in v if x != 'undefined'][0] for v in lists], functions, m)
    lo = 0
    for n in lengths:
        for i in range(lo, lo + n):
            for name, x in zip(lists[i], program[BASE + 4 * i]):
                if name == 'undefined':
                    continue
                want = expected(m, lists, i, name, lo, lo + n - 1)
                got = x.scores_by_rule.get('pupo')
                if want is None:
                    t.check(got is None, '{} has a push and pop term', name)
                else:
                    t.check(got is not None and any(abs(got - w) < 1e-12 for w in want), 'functions of {} candidates {}: {} at {} has the push '
                            'and pop term {}, expected {}', lengths, lists, name, i, got, want)
        lo += n
    t.step()
    t.state(tuple(x.scores_by_rule.get('pupo') for v in program.values() for x in v))
    t.sample(functions=lengths, candidates=lists)


def ends(t):
    """Every pair of candidates at the first and last instruction"""
    big = t.tier == 'thorough'
    m = models(t)
    n = t.int(1, 3)
    def some(most):
        v = t.subset(list(WORDS), most)
        if not [x for x in v if x != 'undefined']:
            t.prune()
        return v
    lists = [some(2)] if n == 1 else [some(2), some(2 if big else 1)] if n == 2 else [some(1), [t.pick(['nop', 'pop {r4,lr}', 'bx lr'])], some(1)]
    if t.bool():
        lists = [v[::-1] for v in lists]
    check(t, lists, [n], m)


def middle(t):
    """Longer functions, one candidate at each address or two at one"""
    big = t.tier == 'thorough'
    m = models(t)
    n = t.int(2, 5 if big else 4)
    inner = ['nop', 'pop {r4,lr}', 'bx lr', 'pop {r4,pc}']
    lists = [['push {r4,lr}'] + t.pick([[], ['nop'], ['nop', 'bx lr', 'undefined']])] + [[t.pick(inner)] for i in range(n - 1)]
    more = t.int(0, n - 1)
    if more:
        x = t.pick([x for x in inner + ['undefined'] if x not in lists[more]])
        lists[more].append(x)
    check(t, lists, [n], m)


def listing(kind, regs):
    name = '%s %s' % (kind, sorted(regs))
    WORDS[name] = {'push': 0xe92d0000, 'pop': 0xe8bd0000}[kind] | sum(1 << r for r in regs)
    {'push': PUSH, 'pop': POP}[kind][name] = {{14: 'lr', 15: 'pc'}.get(r, r) for r in regs}
    if kind == 'pop' and 15 in regs and name not in BRANCH:
        BRANCH.append(name)
    return name


def registers(t):
    """Lists that differ in one register, or in the order in which they come"""
    m = models(t)
    base = t.pick([[4, 5], [0, 1], [3, 12], list(range(8)), [4, 5, 6, 7, 8, 9, 10, 11, 14], list(range(13))])
    r = t.pick([x for x in range(16) if x != 13])
    change = t.int(0, 3)
    a, b = set(base), set(base)
    (a if change & 1 else b).symmetric_difference_update({r})
    if change & 2:
        b = b - {14} | {15}
    if len(a) < 2 or len(b) < 2:
        t.prune()
    lists = [[listing('push', a)], [listing('pop', b)]]
    if t.bool():
        lists.insert(1, ['nop'])
    if t.bool():
        lists[0].append('nop')
    if t.bool():
        lists[-1].insert(0, 'nop')
    check(t, lists, [len(lists)], m)


def long(t):
    """A pop that a branch follows at once, anywhere in a long function"""
    m = models(t)
    n = t.pick([6, 10, 20, 40] + ([100, 300] if t.tier == 'thorough' else []))
    lists = [['push {r4,lr}'] + t.pick([[], ['nop'], ['nop', 'bx lr', 'undefined']])] + [['nop'] for _ in range(n - 2)] + [[t.pick(['nop', 'bx lr', 'pop {r4,pc}', 'pop {r4,r5,pc}'])]]
    at = t.int(1, n - 2)
    lists[at] = lists[at] + [t.pick(['pop {r4,lr}', 'pop {r4,r5}'])]
    if at + 1 < n - 1:
        lists[at + 1] = ['nop', 'bx lr'] if t.bool() else ['bx lr']
    check(t, lists, [n], m)


def functions(t):
    """Each function with its own start and end"""
    m = models(t)
    lengths = t.pick([[1, 1], [1, 2], [2, 1], [2, 2]] + ([[1, 1, 1], [3, 2]] if t.tier == 'thorough' else []))
    lists = [[t.pick(['push {r4,lr}', 'push {r4,r5,lr}', 'pop {r4,pc}', 'pop {r4,r5,pc}', 'nop'])] for i in range(sum(lengths))]
    check(t, lists, lengths, m)


HARNESSES = [Harness('ends', ends, 'functions of 1..3 with every at most 2 candidates at the ends, of 10 words, 3 models, any order of the candidates'),
             Harness('middle', middle, 'functions of 2..4 (thorough 5) that start with a push and none to 3 other candidates, every body of 4 words with one more candidate or none'),
             Harness('registers', registers, '6 lists of registers, the push or the pop with any one more or one less, the pop of the PC or not x another instruction at the ends and between x 3 models'),
             Harness('long', long, 'functions of 6..40 (thorough 300) instructions with a pop and a branch right after it anywhere x 4 ends x 3 models'),
             Harness('functions', functions, 'pairs of functions of 1..2 instructions over 5 words')]
