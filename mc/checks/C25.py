"""The constraint problem of a corrupted program has exactly the solutions that match the metadata."""
import itertools
from mc.core import Harness
from mc.programs import CODE, inst, BASE, encodings
from mc.recovering import originals, build, collect


def hist(insts, field):
    res = {}
    for x in insts:
        if not x.ignore:
            for f in field(x):
                res[f] = res.get(f, 0) + 1
    return res


FIELDS = [lambda x: [x.conditional_field], lambda x: [x.opcode_field], lambda x: list(x.storages_used())]


def solve(t, names, lists):
    from semantic_codec.solution.solution_builders import ProblemBuilder
    program = build(lists)
    collector = collect(names)
    problem = ProblemBuilder().build(program, collector)
    got = [tuple(s[a].encoding for a in sorted(s)) for s in problem.getSolutions()]
    want = []
    true = [hist([inst(x, BASE) for x in names], f) for f in FIELDS]
    for combo in itertools.product(*program.values()):
        if all(hist(combo, f) == h for f, h in zip(FIELDS, true)):
            want.append(tuple(c.encoding for c in combo))
    t.check(len(got) == len(set(got)), 'a solution is given twice')
    t.equal(sorted(got), sorted(want), 'solutions of program %s candidates %s' % (names, lists))
    t.check(tuple(CODE.get(x, x) for x in names) in got, 'the true program is not a solution')
    one = problem.getSolution()
    t.check(one is not None and tuple(one[a].encoding for a in sorted(one)) in want, 'the first solution is not one')
    t.equal([len(v) for v in program.values()], [len(v) for v in lists], 'number of candidates after solving')
    t.step(len(want) + 1)
    t.state(tuple(sorted(want)))
    t.sample(program=names, candidates=lists, solutions=len(want))


MORE = {'push {r4-r8,lr}': 0xe92d41f0, 'push {r4-r9,lr}': 0xe92d43f0, 'mla r0,r1,r2,r3': 0xe0203291, 'mla r0,r1,r2,r0': 0xe0200291,
        'undefined *': 0xfffffffe}

A = ['add r0,r0,r1', 'add r1,r0,r1', 'cmp r1,#0', 'moveq r0,#1', 'mov r0,#1', 'ldr r0,[r1]', 'add r2,r3,r4', 'undefined']


def body(t):
    big = t.tier == 'thorough'
    n = t.int(2, 3)          # the constraint library itself fails on problems of one variable
    alphabet = A if n < 3 else [A[0], A[1], A[3], 'undefined'] + (['mov r0,#1'] if big else [])
    names = originals(t, [a for a in alphabet if a not in ('undefined', 'add r2,r3,r4')], n)
    lists = []
    for x in names:
        wrong = t.subset([a for a in alphabet if a != x], 2 if n < 3 or big else 1)
        lists.append(wrong + [x] if t.tier == 'quick' else ([x] + wrong if t.bool() else wrong + [x]))
    solve(t, names, lists)


def swaps(t):
    """Programs where the metadata cannot tell permutations apart"""
    names = originals(t, ['add r0,r0,r1', 'cmp r1,#0', 'moveq r0,#1'], 4)
    lists = []
    for x in names:
        wrong = t.subset([a for a in ['add r0,r0,r1', 'cmp r1,#0', 'moveq r0,#1'] if a != x], 2)
        lists.append([x] + wrong)
    solve(t, names, lists)


def registers(t):
    """Instructions that use many registers, and addresses with nothing but data"""
    names, lists = [], []
    for i in range(t.int(2, 3)):
        x, wrong = t.pick([('push {r4-r8,lr}', []), ('push {r4-r8,lr}', ['push {r4-r9,lr}']), ('push {r4-r9,lr}', ['push {r4-r8,lr}', 'undefined']),
                           ('mla r0,r1,r2,r3', ['mov r0,#1']), ('mla r0,r1,r2,r3', ['mla r0,r1,r2,r0']), ('undefined', []), ('undefined', ['undefined *']),
                           ('undefined *', ['undefined', 'mov r0,#1']), ('mov r0,#1', ['undefined', 'mla r0,r1,r2,r3'])])
        names.append(x)
        lists.append(wrong + [x] if t.bool() else [x] + wrong)
    solve(t, [MORE.get(x, x) for x in names], [[MORE.get(x, x) for x in v] for v in lists])


def constraint(t):
    """The constraint alone, for any amounts asked for: none of the fields is special"""
    from constraint import Problem
    from mc.stubs import Stub
    from semantic_codec.solution.solution_builders import ExactFieldSumConstraint
    n = t.int(2, 3)
    contents = [[], [3], [18], [3, 18]] if n == 2 or t.tier == 'thorough' else [[], [3], [3, 18]]
    domains = [t.subset(list(range(len(contents))) + ['undefined'], 2 if n == 2 else 1) for _ in range(n)]
    if any(not d for d in domains):
        t.prune()
    amounts = {3: t.int(0, n), 18: t.int(0, n)}
    if t.bool():
        amounts = {k: v for k, v in amounts.items() if v}      # a field that is not listed is not wanted
    problem = Problem()
    values = []
    for i, d in enumerate(domains):
        v = [Stub(10 * i + k, BASE + 4 * i, read=[] if x == 'undefined' else contents[x], undefined=x == 'undefined')
             for k, x in enumerate(d)]
        values.append(v)
        problem.addVariable(i, v)
    problem.addConstraint(ExactFieldSumConstraint(amounts, lambda x: x.storages_read()))
    before = dict(amounts)
    got = sorted(tuple(s[i].encoding for i in range(n)) for s in problem.getSolutions())
    want = sorted(tuple(c.encoding for c in combo) for combo in itertools.product(*values)
                  if {k: h for k, h in hist(combo, lambda x: x.storages_read()).items()} == {k: v for k, v in before.items() if v})
    t.equal(got, want, 'solutions for the amounts %s of %s' % (before, domains))
    t.equal(amounts, before, 'amounts after solving')
    t.step(len(want) + 1)
    t.state(tuple(want), tuple(sorted(before.items())))
    t.sample(amounts=before, solutions=len(want))


HARNESSES = [Harness('constraint', constraint, 'every 1..2 candidates of 2 addresses, 1 of 3, over 5 contents x every amount of 2 fields, zero amounts '
                     'listed or not'),
             Harness('programs', body, 'every program of 2 over 6 instructions x every at most 2 wrong candidates of 6, and of 3 over 3 '
                     '(4) x at most 1 (2); solutions compared with brute force'),
             Harness('registers', registers, '2..3 addresses of 9 kinds: many registers, one register twice, data alone or with candidates'),
             Harness('four-addresses', swaps, 'every program of 4 over 3 instructions x every subset of the others as candidates')]
