"""The bits of a solution are enough to select the true instruction of every address."""
from mc.core import Harness
from mc.stubs import Stub


def solve(t, sizes, places, same=False):
    from semantic_codec.solution.solution_builders import ForwardConstraintSolutionBuilder
    addrs = [0x1000 + 4 * i for i in range(len(sizes))]
    mk = lambda a, k: Stub(a * 64 + k, a, text='i%d_%d' % (a, k // 2 if same else k))
    program = {a: [mk(a, k) for k in range(s)] for a, s in zip(addrs, sizes)}
    original = [mk(a, p) for a, p in zip(addrs, places)]
    b = ForwardConstraintSolutionBuilder(program, original)
    b.build()
    widths = {a: (s - 1).bit_length() for a, s in zip(addrs, sizes)}
    t.equal([len(v) for v in program.values()], list(sizes), 'number of candidates after building the solution')
    t.equal(b.solution_size, sum(widths.values()), 'bits of the solution of candidate counts %s' % (sizes,))
    # the receiver: the same program, the bits, and nothing else
    q = b.solution
    t.check(q.empty() == (sum(widths.values()) == 0), 'empty solution')
    for a, s, p in sorted(zip(addrs, sizes, places), key=lambda x: x[1]):
        index = 0
        if widths[a]:
            q.word_size = widths[a]
            index = q.dequeue(0, 0)
        t.check(index == p, 'candidate counts {} originals {}: the solution selects candidate {} at address {}, the true one is {}',
                sizes, places, index, a, p)
    t.check(q.empty(), 'bits are left over')
    t.step(len(sizes))
    t.state(tuple(sizes), tuple(places))
    t.sample(candidates=sizes, originals=places)


def small(t):
    n = t.int(1, 4)
    sizes = [t.int(1, 5 if n < 4 or t.tier == 'thorough' else 3) for _ in range(n)]
    places = [t.int(0, s - 1) for s in sizes]
    solve(t, sizes, places, t.bool())


def long_solutions(t):
    """More than one word of bits, chunks that span the words"""
    s = t.pick([2, 3, 4, 5, 8, 9, 16, 17, 33])
    n = t.pick([1, 7, 8, 9, 17, 33])
    k = t.pick([0, 1, s // 2, s - 2, s - 1])
    other = t.pick([s, 3, 9])
    sizes = [s if i % 2 == 0 else other for i in range(n)]
    places = [min(max(0, k) if i % 3 else sizes[i] - 1 - max(0, min(k, sizes[i] - 1)), sizes[i] - 1) for i in range(n)]
    solve(t, sizes, places)


def large(t):
    """Hundreds of addresses, a thousand candidates"""
    s, n = t.pick([(2, 257), (3, 300), (300, 3), (9, 100), (255, 5), (256, 5), (257, 5), (1000, 3), (1025, 3)] +
                  ([(65535, 2), (65537, 2), (5, 1025)] if t.tier == 'thorough' else []))
    k = t.pick([0, 1, s // 2, s - 1])
    solve(t, [s] * n, [k if i % 2 else s - 1 - k for i in range(n)], t.bool())


HARNESSES = [Harness('small', small, 'every program of 1..4 addresses with 1..5 (4 addresses: 1..3) candidates and the original at any place, '
                     'candidates with the same text or not'),
             Harness('long', long_solutions, 'up to 33 addresses with up to 33 candidates, solutions of up to 200 bits'),
             Harness('large', large, '3..300 (thorough 1025) addresses with 2..1025 (65537) candidates x original at 4 places', cpu_limit=100)]
