"""The pruning step of the recovery."""
from mc.core import Harness

SCORES = [0, 0.3, 0.7, 1]


class Candidate(object):
    def __init__(self, i, s):
        self.i, self.s = i, s

    def score(self):
        return self.s


def body(t):
    scores = t.seq(SCORES, 0, 6 if t.tier == 'quick' else 8)
    if t.bool():
        scores = [float(s) for s in scores]
    run(t, scores)


def run(t, scores):
    from recover_program import remove_bad_candidates_at_addr
    v = [Candidate(i, s) for i, s in enumerate(scores)]
    sure = [i for i, s in enumerate(scores) if s == 1]
    want = sure if sure else [i for i, s in enumerate(scores) if s > 0]
    n = remove_bad_candidates_at_addr(v)
    t.equal([c.i for c in v], want, 'candidates left of scores %s' % scores)
    t.equal(n, len(scores) - len(want), 'number of removed candidates of scores %s' % scores)
    m = remove_bad_candidates_at_addr(v)
    t.check(m == 0 and [c.i for c in v] == want, 'pruning again changes the result')
    t.step(2)
    t.state(tuple(scores))
    t.sample(scores=scores, left=want)


def extremes(t):
    """Nearly impossible is not impossible, and nearly certain not certain"""
    run(t, t.seq([0.0, 5e-324, 1e-15, 1e-9, 0.5, 1 - 1e-9, 1 - 2 ** -53, 1.0], 0, 4 if t.tier == 'quick' else 5))


HARNESSES = [Harness('pruning', body, 'every list of 0..6 (thorough 8) candidates with scores from 0, 0.3, 0.7, 1'),
             Harness('extremes', extremes, 'every list of 0..4 (thorough 5) candidates with 8 scores, as close to 0 and 1 as they can be')]
