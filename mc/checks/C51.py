"""The register distance term of the recovery"""
from mc.core import Harness
from mc.programs import inst, BASE

# name -> (encoding, storages read, storages written); the memory is m
WORDS = {'mov r0,#1': (0xe3a00001, '', '0'), 'mov r1,#1': (0xe3a01001, '', '1'), 'mov r2,r0': (0xe1a02000, '0', '2'), 'mov r2,r1': (0xe1a02001, '1', '2'),
         'add r0,r0,#1': (0xe2800001, '0', '0'), 'add r2,r0,r1': (0xe0802001, '01', '2'), 'add r2,r1,r0': (0xe0812000, '10', '2'),
         'add r2,r2,r2': (0xe0822002, '2', '2'), 'ldr r0,[r1]': (0xe5910000, '1m', '0'), 'str r2,[r1]': (0xe5812000, '1', '2m'),
         'nop': (0xe1a03003, '3', '3'), 'cmp r0,r1': (0xe1500001, '01', ''), 'pop {r0}': (0xe49d0004, None, 'd0'), 'mov r2,sp': (0xe1a0200d, 'd', '2'), 'undefined': (0xffffffff, None, None)}
NUMBER = {'0': 0, '1': 1, '2': 2, '3': 3, 'm': 16, 'd': 13}


def expected(m, collector, lists, addrs, i, name):
    """The value of the term"""
    def chance(r):
        lo = collector.storage_min_dist.get(r, 0)
        hi = collector.storage_max_dist.get(r, 0)
        nobody = 1
        for k in range(lo, hi + 1):
            a = addrs[i] - 4 * (k + 1)
            v = [x for x in lists[addrs.index(a)] if x != 'undefined'] if a in addrs else []
            if v:
                nobody *= 1 - sum(1 for x in v if writes(x, r)) / len(v)
        return 1 - nobody
    ps = [chance(NUMBER[x]) for x in WORDS[name][1]]
    # The first one decides whether there is any chance, and the best of all how much
    return max(ps) if ps and ps[0] else m.low_probability


def writes(name, r):
    return WORDS[name][2] is not None and r in [NUMBER[x] for x in WORDS[name][2]]


def body(t):
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    from semantic_codec.metadata.probabilistic_model import DefaultProbabilisticModel
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    big = t.tier == 'thorough'
    m = DefaultProbabilisticModel()
    n = t.int(2, 4)
    alphabet = [x for x in WORDS if x != 'undefined'] if n < 4 else list(WORDS)[:4] + ['add r0,r0,#1', 'nop']
    names = [t.pick(alphabet) for i in range(n)]
    lists = [[x] for x in names]
    # one address, or two next to each other, have another candidate
    at = t.int(0, n - 1)
    if n < 4 or big:
        lists[at] = lists[at] + [t.pick([x for x in (alphabet if n < 3 or big else alphabet[:3]) + ['undefined'] if x != names[at]])]
        if at + 1 < n and t.bool():
            lists[at + 1] = ['undefined' if n > 2 else t.pick(['mov r0,#1', 'undefined', 'nop'])] + lists[at + 1]
    elif at != 0:
        t.prune()
    gap = t.int(0, n - 1) if n < 4 else 0        # the addresses from there on are further
    addrs = [BASE + 4 * i + (8 if gap and i >= gap else 0) for i in range(n)]
    program = {a: [inst(WORDS[x][0], a) for x in v] for a, v in zip(addrs, lists)}
    c = MetadataCollector()
    c.collect([inst(WORDS[x][0], a) for x, a in zip(names, addrs)])
    ProbabilisticRecuperator(c, program, m, {BASE: (BASE, addrs[-1])}).recover()
    for i in range(n):
        for name, x in zip(lists[i], program[addrs[i]]):
            if WORDS[name][1] is None:
                continue
            got = x.scores_by_rule.get('prd')
            if i == 0:
                t.check(got is None, 'the first instruction has a distance term')
                continue
            want = expected(m, c, lists, addrs, i, name)
            t.check(got is not None and abs(got - want) < 1e-9, 'candidates {} (gap at {}): the distance term of {} at {} is {}, '
                    'expected {}', lists, gap, name, i, got, want)
    t.step()
    t.state(tuple(round(x.scores_by_rule.get('prd', -1), 9) for v in program.values() for x in v))
    t.sample(candidates=lists, gap=gap)


def numerous(t):
    """Dozens of candidates before, some of which write the register"""
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    from semantic_codec.metadata.probabilistic_model import DefaultProbabilisticModel
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    counts = [0, 1, 4, 33] + ([5, 9, 64, 150] if t.tier == 'thorough' else [])
    counts = [(t.pick(counts), t.pick(counts), t.pick([0, 7])) for _ in range(2)]
    words = {'writes': 0xe3a00000, 'other': 0xe3a01000, 'undefined': 0xffffffff}
    reader = 'mov r2,r0'
    lists = [t.pick([['mov r0,#1'], ['writes'] * 4 + ['other']])] + [['writes'] * w + ['other'] * o + ['undefined'] * u for w, o, u in counts] + [[reader]]
    addrs = [BASE + 4 * i for i in range(4)]
    program = {a: [inst(WORDS[x][0] if x in WORDS else words[x] + k, a) if x != 'undefined' else inst(x, a) for k, x in enumerate(v)]
               for a, v in zip(addrs, lists)}
    c = MetadataCollector()
    c.collect([inst(0xe3a00001, addrs[0]), inst(0xe3a01001, addrs[1]), inst(0xe1a02000, addrs[2]), inst(WORDS[reader][0], addrs[3])])
    least, most = t.pick([(0, 0), (0, 1), (1, 1), (0, 2), (2, 2)])
    c.storage_min_dist[0], c.storage_max_dist[0] = least, most
    m = DefaultProbabilisticModel()
    ProbabilisticRecuperator(c, program, m, {BASE: (BASE, addrs[-1])}).recover()
    nobody = 1
    for k in range(least, most + 1):
        v = [x for x in lists[2 - k] if x != 'undefined']
        nobody *= 1 - sum(x in ('writes', 'mov r0,#1') for x in v) / len(v) if v else 1
    want = 1 - nobody or m.low_probability
    got = program[addrs[3]][0].scores_by_rule.get('prd')
    t.check(got is not None and abs(got - want) < 1e-9, 'writers, others and undefined {}, distances {} to {}: the distance term is {}, expected {}',
            counts, least, most, got, want)
    t.step()
    t.state(tuple(counts), least, most, got)
    t.sample(candidates=counts, distances=[least, most])


def far(t):
    """The register is written long before, or not in reach"""
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    from semantic_codec.metadata.probabilistic_model import DefaultProbabilisticModel
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    d = t.pick([3, 16, 63, 64, 65, 66, 130] if t.tier == 'quick' else [3, 16, 31, 32, 63, 64, 65, 66, 127, 128, 130, 255, 256, 257, 600])
    least, most = t.pick([(0, d), (d, d), (0, d - 1), (d + 1, d + 3), (d - 1, d + 1)])
    writer = t.pick(['mov r0,#1', 'pop {r0}'])
    names = ['mov r1,#1'] * 2 + [writer] + ['nop'] * d + ['mov r2,r0']
    other = t.pick([None, 'nop', 'undefined'])
    lists = [[x] for x in names]
    if other:
        lists[2] = lists[2] + [other]
    # There may be nothing between the two, or at some places
    holes = {'none': [], 'nearest': [d + 2], 'first': [3], 'middle': [3 + d // 2], 'all': range(3, d + 3)}[t.pick(['none', 'nearest', 'first', 'middle', 'all'])]
    kept = [i for i in range(len(names)) if i not in holes]
    names, lists, addrs = [names[i] for i in kept], [lists[i] for i in kept], [BASE + 4 * i for i in kept]
    program = {a: [inst(WORDS[x][0], a) for x in v] for a, v in zip(addrs, lists)}
    c = MetadataCollector()
    c.collect([inst(WORDS[x][0], a) for x, a in zip(names, addrs)])
    c.storage_min_dist[0], c.storage_max_dist[0] = least, most
    m = DefaultProbabilisticModel()
    ProbabilisticRecuperator(c, program, m, {BASE: (BASE, addrs[-1])}).recover()
    want = (0.5 if other == 'nop' else 1) if least <= d <= most else m.low_probability
    got = program[addrs[-1]][0].scores_by_rule.get('prd')
    t.check(got is not None and abs(got - want) < 1e-9, 'written {} instructions before, distances {} to {}: the distance term is {}, expected {}',
            d, least, most, got, want)
    t.step()
    t.state(d, least, most, got)
    t.sample(distance=d, known=[least, most])


HARNESSES = [Harness('distance', body, 'every program of 2..3 over 14 and of 4 over 6 instructions x one more candidate at one or two addresses (4: none, '
                     'thorough one) x a gap between addresses or none'),
             Harness('far', far, 'a register written 3..130 (thorough 600) instructions before, 5 windows of distances around it, nothing at some or all of the addresses between', cpu_limit=100),
             Harness('numerous', numerous, 'two addresses with any of 0..33 (thorough 150) writers, others and undecodable candidates x 5 windows')]
