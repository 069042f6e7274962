"""The branch term of the recovery"""
from mc.core import Harness
from mc.programs import CODE, inst
from mc.recovering import collect

UNKNOWN = ['bx lr', 'pop {r4,pc}']


def branch(t, a, target, kind):
    return {'b': 0xea000000, 'bl': 0xeb000000, 'bne': 0x1a000000}[kind] | ((target - a - 8) >> 2 & 0xffffff)


def body(t):
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    from semantic_codec.metadata.probabilistic_model import DefaultProbabilisticModel
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    big = t.tier == 'thorough'
    base = t.pick([0x10000, 0] + ([0x7fffff00] if big else []))
    n = t.int(1, 3)
    lengths = [t.int(1, 3 if big or n < 3 else 2) for i in range(n)]
    gap = t.pick([0, 4, 16] if big else [0, 8]) if len(lengths) > 1 else 0
    functions, a = {}, base
    for n in lengths:
        functions[a] = (a, a + 4 * (n - 1))
        a += 4 * n + gap
    addrs = [x for lo, hi in functions.values() for x in range(lo, hi + 4, 4)]
    at = t.pick(addrs)
    end = addrs[-1]
    targets = sorted(set(addrs + [f - 4 for f in functions if f] + [hi + 4 for lo, hi in functions.values()] + [end + 0x1000]))
    kind = t.pick(['b', 'bl', 'bne'] if big else ['b', 'bl'])
    # A function of which there is nothing in the program
    if t.bool():
        functions[end + 0x2000] = (end + 0x2000, end + 0x2010)
        targets += [end + 0x2000, end + 0x2004]
    words = [(branch(t, at, x, kind), x) for x in [t.pick(targets)]]
    other = t.pick(['none', 'target', 'unknown', 'no branch'])
    if other == 'target':
        x = t.pick(targets[:3] if big else [targets[0], targets[-2]])
        words.append((branch(t, at, x, 'bne' if kind == 'b' else 'b'), x))
    elif other == 'unknown':
        words.append((CODE[t.pick(UNKNOWN)], None))
    elif other == 'no branch':
        words.append((CODE['add r0,r0,r1'], 'no branch'))
    program = {x: [inst('nop', x)] for x in addrs}
    program[at] = [inst(e, at) for e, _ in words]
    # An address inside of a function may have nothing
    inner = [x for x in addrs[1:-1] if x != at and x not in functions]
    if inner and t.bool():
        del program[t.pick(inner[:1] + inner[-1:] if big else inner[:1])]
    # Weights that tell the cases apart
    m = DefaultProbabilisticModel()
    if other != 'target' and t.bool():
        m.branch_to_this_method, m.branch_to_other_method_start, m.just_any_jump_is_valid = 0.31, 0.37, 0.11
    c = MetadataCollector()
    c.collect([v[0] for v in program.values()])
    ProbabilisticRecuperator(c, program, m, functions).recover()
    lo, hi = [f for f in functions.values() if f[0] <= at <= f[1]][0]
    for x, (e, target) in zip(program[at], words):
        if target == 'no branch':
            t.check('pbd' not in x.scores_by_rule, 'a candidate that is no branch has a branch term')
            continue
        if target is None:
            want = 2 * m.just_any_jump_is_valid
        elif lo <= target <= hi:
            want = m.branch_to_this_method
        elif target in functions:
            want = m.branch_to_other_method_start
        elif target < addrs[0] or target > end:
            want = m.just_any_jump_is_valid
        else:
            want = 2 * m.just_any_jump_is_valid
        got = x.scores_by_rule.get('pbd')
        t.check(got == want, 'functions {}: branch at {:x} to {} is weighted {}, expected {}', [(hex(l), hex(h)) for l, h in functions.values()],
                at, target if target is None else hex(target), got, want)
    t.step()
    t.state(tuple(lengths), gap, at - base, tuple(w for w, _ in words))
    t.sample(functions=lengths, gap=gap, at=at - base, targets=[x if not isinstance(x, int) else x - base for _, x in words])


HARNESSES = [Harness('targets', body, '1..2 functions of 1..3 and 3 of 1..2 (thorough 3) instructions, with and without gaps, at 2 (3) places of the memory x a branch at any '
                     'address x a target at, before or after any of them x an address without candidates or none x no other candidate, another target, an unknown one or no branch x '
                     '2 models')]
