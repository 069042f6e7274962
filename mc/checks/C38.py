"""Probabilities of independent events"""
from fractions import Fraction as F
from mc.core import Harness


def body(t):
    from semantic_codec.probability.probabilities import indep_events_union, indep_intersection
    big = t.tier == 'thorough'
    n = t.int(0, 6 if big else 5)
    p = t.seq([F(0), F(1, 3), F(1, 2), F(3, 4), F(1)], n, n)
    as_tuple = t.bool() if n < 4 else False
    arg = tuple(p) if as_tuple else list(p)
    none, every = F(1), F(1)
    for x in p:
        none *= 1 - x
        every *= x
    t.equal(indep_intersection(arg), every, 'all of the events %s' % p)
    if not p:
        try:
            indep_events_union(arg)
        except RuntimeError:
            t.step(2)
            t.state('none')
            return
        t.check(False, 'the union of no events was computed')
    t.equal(indep_events_union(arg), 1 - none, 'any of the events %s' % p)
    u = indep_events_union([float(x) for x in p])
    t.check(abs(u - float(1 - none)) < 1e-9, 'any of the events {} in floating point: {}', p, u)
    t.equal(list(arg), p, 'the probabilities given')
    t.step(3)
    t.state(tuple(p))
    t.sample(events=[str(x) for x in p], any=str(1 - none))


def many(t):
    from semantic_codec.probability.probabilities import indep_events_union
    n = t.int(6, 12 if t.tier == 'quick' else 14)
    at = t.int(0, n - 1)
    kind = t.pick([F(1, 2), F(1), F(0), F(1, 10 ** 20)])
    p = [F(1, k + 2) for k in range(n)]
    p[at] = kind
    none = F(1)
    for x in p:
        none *= 1 - x
    t.equal(indep_events_union(p), 1 - none, 'any of %d events' % n)
    t.step(1)
    t.state(n, at, kind)
    t.sample(events=n)


def unlikely(t):
    """Very small probabilities are not zero, and those next to one are not one"""
    from semantic_codec.probability.probabilities import indep_events_union, indep_intersection
    n = t.int(1, 6)
    p = t.seq([F(1, 10 ** 9), F(1, 10 ** 60), 1 - F(1, 10 ** 9), F(1, 2)], n, n)
    none, every = F(1), F(1)
    for x in p:
        none *= 1 - x
        every *= x
    t.equal(indep_intersection(p), every, 'all of the events %s' % p)
    t.equal(indep_events_union(p), 1 - none, 'any of the events %s' % p)
    f = [float(x) for x in p]
    got = indep_intersection(f)
    t.check(abs(got - float(every)) <= 1e-9 * float(every), 'all of the events {} in floating point: {}', f, got)
    t.step(3)
    t.state(tuple(p))
    t.sample(events=f, all=got)


def together(t):
    from semantic_codec.probability.probabilities import indep_intersection
    n = t.pick([50, 200, 1000, 1074])
    p = t.pick([F(1, 2), F(99, 100), F(1, 4)])
    t.equal(indep_intersection([p] * n), p ** n, 'all of %d events of %s' % (n, p))
    got, want = indep_intersection([float(p)] * n), float(p ** n)
    t.check(abs(got - want) <= 1e-6 * want, '{} events of {}: {}, expected {}', n, p, got, want)
    t.step(2)
    t.state(n, p)
    t.sample(events=n, each=str(p))


HARNESSES = [Harness('exact', body, 'every list of 0..5 (thorough 6) probabilities from 0, 1/3, 1/2, 3/4, 1, in exact arithmetic and floating point'),
             Harness('many', many, '6..12 (14) events with different probabilities'),
             Harness('unlikely', unlikely, 'every list of 1..6 probabilities from 1e-9, 1e-60, 1-1e-9, 1/2'),
             Harness('together', together, '50..1074 equal events')]
