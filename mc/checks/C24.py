"""Quality of a solution: exact, and the same whatever was asked before."""
import math
from mc.core import Harness
from mc.stubs import Stub

QUERIES = ['size', 'count', 'bins', 'depth', 'evaluate', 'report']


def body(t):
    from semantic_codec.solution.solution_quality import SolutionQuality
    big = t.tier == 'thorough'
    n = t.int(1, 3)
    sizes = [t.int(0, 4 if n < 3 or big else 3) for _ in range(n)]
    base = t.pick([0x1000, 0]) if n < 3 else 0      # from 0, one of the words is 0 too
    addrs = [base + 4 * i for i in range(n)]
    places = [t.int(0, s - 1) if s else 0 for s in sizes]
    scores = t.pick([lambda k: k, lambda k: -k, lambda k: 0, lambda k: 0.5 + k * 1e-15])      # rising, falling, all tied, nearly
    same = t.bool() if n < 3 or big else False                      # several candidates with the same text
    text = lambda a, k: 'x%d' % (a * 16 + (k // 2 if same else k))
    program, original, rank = {}, [], []
    for a, s, p in zip(addrs, sizes, places):
        v = [Stub(a * 16 + k, a, text=text(a, k)) for k in range(s)]
        for k, c in enumerate(v):
            c.scores_by_rule['r'] = scores(k)
        program[a] = v
        original.append(Stub(a * 16 + p, a, text=text(a, p)))
        if s:
            better = sum(1 for k in range(s) if scores(k) > scores(p))
            ties = sum(1 for k in range(s) if scores(k) == scores(p)) - 1
            rank.append(((better + 1) / s, (better + ties + 1) / s))
    want = {'size': sum(math.log(s, 2) for s in sizes if s) if all(sizes) else 0,
            'count': math.prod(sizes),
            'bins': {k: sizes.count(k) for k in set(sizes)},
            'depth': (max([r[0] for r in rank] or [0]), max([r[1] for r in rank] or [0]))}
    q = SolutionQuality(program, original)
    asked = t.seq(QUERIES, 1, 2 if not big else 3)
    for x in asked:
        if x in ('evaluate', 'report'):
            getattr(q, x)()
            continue
        got = {'size': lambda: q.solution_size, 'count': lambda: q.solution_count, 'bins': lambda: q.solution_count_bins,
               'depth': lambda: q.highest_depth}[x]()
        what = '%s of candidate counts %s originals %s after %s' % (x, sizes, places, asked)
        if x == 'bins':
            t.equal(dict(got), want[x], what)
        elif x == 'depth':          # how equal scores are ranked is not specified
            t.check(got is not None and want[x][0] - 1e-9 <= got <= want[x][1] + 1e-9, '{}: {}, expected {}', what, got, want[x])
        else:
            t.check(got is not None and abs(got - want[x]) < 1e-9, '{}: {}, expected {}', what, got, want[x])
    for a, s in zip(addrs, sizes):
        t.equal(sorted(c.encoding for c in program[a]), [a * 16 + k for k in range(s)], 'candidates after the queries')
    t.step(len(asked))
    t.state(tuple(sizes), tuple(places), tuple(asked))
    t.sample(candidates=sizes, originals=places, queries=asked, expected={k: str(v) for k, v in want.items()})


def large(t):
    """Counts that no float can hold, bins and depths of hundreds of addresses"""
    from semantic_codec.solution.solution_quality import SolutionQuality
    n, s = t.pick([(70, 2), (300, 3), (40, 17), (3, 300), (2, 1030), (1, 4096), (2, 4097), (1, 20000)])
    place = t.pick(sorted({0, s // 2, s - 1}))
    sizes = [s if i % 2 == 0 else s + 1 for i in range(n)]
    program, original = {}, []
    for i, k in enumerate(sizes):
        a = 0x1000 + 4 * i
        program[a] = [Stub(a * 32768 + j, a, text='x%d' % (a * 32768 + j)) for j in range(k)]
        for j, c in enumerate(program[a]):
            c.scores_by_rule['r'] = -j
        original.append(Stub(a * 32768 + place, a, text='x%d' % (a * 32768 + place)))
    q = SolutionQuality(program, original)
    if t.bool():
        q.evaluate()
    t.check(q.solution_count == math.prod(sizes), 'count of {} addresses of {} candidates: {}', n, s, q.solution_count)
    t.equal({k: v for k, v in q.solution_count_bins.items()}, {k: sizes.count(k) for k in set(sizes)}, 'bins')
    t.check(abs(q.solution_size - sum(math.log(k, 2) for k in sizes)) < 1e-6, 'size {}', q.solution_size)
    t.check(abs(q.highest_depth - (place + 1) / s) < 1e-9, 'depth {} of the candidate {} of {}', q.highest_depth, place, s)
    t.step(4)
    t.state(n, s, place)
    t.sample(addresses=n, candidates=s, original=place)


HARNESSES = [Harness('queries', body, 'every program of 1..3 addresses with 0..4 (3 addresses: 0..3) candidates x original at any place '
                     'x 4 score profiles x candidates with the same text or not x addresses and words from 0 or not x every history of 1..2 (thorough 3) of 6 queries'),
             Harness('large', large, '1..300 addresses with 2..20000 candidates x original at 3 places')]
