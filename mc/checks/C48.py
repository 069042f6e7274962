"""How the terms of the recovery are combined into a score"""
from mc.core import Harness
from mc.programs import CODE, inst, BASE
from mc.recovering import originals, corrupted, one_function, collect, build
from mc.stubs import Stub

KINDS = {'branch': dict(branch=True), 'push': dict(push_pop='push'), 'pop to the PC': dict(push_pop='pop', branch=True), 'other': {}}


def product(terms, x):
    res = terms['pc'] * terms['po'] * terms.get('pcfg', 1)
    if x.is_branch:
        return res * terms.get('pbd', 1)
    if x.is_push_pop:
        return res * terms.get('pr', 1) * terms.get('pupo', 1)
    return res * terms.get('pr', 1) * terms.get('prd', 1)


def pruning(terms, x):
    if min(terms.values()) == 0:
        return 0
    if max(terms['pc'], terms['po']) == 1:
        return 1
    return product(terms, x)


def close(a, b):
    return abs(a - b) < 1e-12


def terms(t):
    from semantic_codec.metadata.recuperator import probabilistic_rules, probabilistic_rules_remove_step
    big = t.tier == 'thorough'
    kind = t.pick(list(KINDS))
    x = Stub(1, BASE, **KINDS[kind])
    given = {}
    for k in ('pc', 'po'):
        given[k] = t.pick([1, 0.5, 0, 0.25] if big else [1, 0.5, 0])
    for i, k in enumerate(('pcfg', 'pbd', 'pr', 'pupo', 'prd')):
        v = t.pick([None, 0.75, 0, 1] if big or i < 2 else [None, 0.75, 1e-9, 0] if i != 3 else [None, 0.75, 0])
        if v is not None:
            given[k] = v
    before = dict(given)
    for fn, want in ((probabilistic_rules_remove_step, pruning(given, x)), (probabilistic_rules, product(given, x))):
        got = fn(given, x)
        t.check(close(got, want), '{} of {} {} is {}, expected {}', fn.__name__, kind, given, got, want)
        x.scores_by_rule, x.score_function = given, fn
        t.check(close(x.score(), want), 'the score of {} {} is {}, expected {}', kind, given, x.score(), want)
        # One means certain and zero impossible, so these are exact
        t.check((got == 1) == (want == 1) and (got == 0) == (want == 0), '{} {} scores {} instead of {}', kind, given, got, want)
    t.equal(given, before, 'terms')
    t.step(4)
    t.state(kind, tuple(given.items()))
    t.sample(kind=kind, terms=given)


A = ['push {r4,lr}', 'add r0,r0,r1', 'pop {r4,lr}', 'pop {r4,pc}', 'bne -8', 'cmp r1,#0', 'moveq r0,#1']


def recovered(t):
    """Every term that the recovery computes for a kind of instruction is in the score"""
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator, probabilistic_rules
    big = t.tier == 'thorough'
    n = t.int(2, 3)
    alphabet = A if n == 2 else A[:5] if big else A[:3]
    names = originals(t, alphabet, n)
    lists = corrupted(t, names, alphabet, 2 if n == 2 and big else 1)
    program = build(lists)
    ProbabilisticRecuperator(collect(names), program, functions=one_function(n)).recover()
    for v in program.values():
        for x in v:
            got = dict(x.scores_by_rule)
            t.check(close(x.score(), pruning(got, x)), '{}: score {} of the terms {}', x.encoding, x.score(), got)
            x.score_function = probabilistic_rules
            t.check(close(x.score(), product(got, x)), '{}: score {} of the terms {}', x.encoding, x.score(), got)
            # whatever the names of the terms are, those of the kind are there and count
            rest = {k: p for k, p in got.items() if k not in ('pc', 'po', 'pcfg')}
            if x.is_push_pop and not x.is_branch:
                t.check(len(rest) == 1 and 0 < list(rest.values())[0] <= 1, 'push or pop term {}', rest)
                for k in rest:
                    x.scores_by_rule[k] = 0
                    t.check(x.score() == 0, 'the push and pop term {} does not count', k)
                    x.scores_by_rule[k] = rest[k]
    t.step(sum(len(v) for v in lists))
    t.state(tuple(round(x.score(), 9) for v in program.values() for x in v))
    t.sample(program=names, candidates=lists)


HARNESSES = [Harness('terms', terms, 'every 3 (thorough 4) values of 2 terms x 3 or 4 of 5 terms, absent included x 4 kinds of instruction'),
             Harness('recovered', recovered, 'every program of 2 over 7 and of 3 over 3 (thorough 5) instructions x at most 1 (2) wrong candidates '
                     'per address')]
