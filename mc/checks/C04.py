"""The 2D order uses every packet exactly once, for any number of packets."""
from mc.core import Harness


def body(t):
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp
    n = t.int(1, 3000 if t.tier == 'quick' else 9000)
    if n > (2995 if t.tier == 'quick' else 8995):
        n = [4095, 4096, 4101, 5461, 16384][n % 5] * (1 if t.tier == 'quick' else 4)
    flat = [float(x) for x in build_2d_interleave_sp(n, flat=True)]
    rows = build_2d_interleave_sp(n)
    joined = [float(x) for r in rows for x in r]
    t.equal(joined, flat, 'flat order against the rows of the matrix form')
    t.equal(sorted(flat), [float(i) for i in range(n)], 'packets used by the order of %d packets' % n)
    t.step(n)
    t.state(tuple(flat))
    t.sample(packets=n, order=[int(x) for x in flat[:12]])


def history(t):
    """An order does not depend on those that were built before"""
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp, sucesive_packing
    sizes = [1, 4, 5, 16, 20, 37, 64, 85] + ([3, 50, 256, 341] if t.tier == 'thorough' else [])
    for i in range(3):
        n = t.pick(sizes)
        flat = t.bool()
        got = build_2d_interleave_sp(n, flat)
        joined = [int(x) for x in got] if flat else [int(x) for r in got for x in r]
        t.equal(sorted(joined), list(range(n)), 'packets used by order number %d, of %d packets' % (i + 1, n))
        t.equal([[int(x) for x in r] for r in sucesive_packing(1)], [[0, 2], [3, 1]], 'matrix of the next order')
        t.step(1)
        t.state(i, n, flat)
    t.sample(packets=n)


HARNESSES = [Harness('permutation', body, 'every packet count 1..2995 (thorough 8995), and 5 around and beyond 4096 (thorough 16384)'),
             Harness('history', history, 'every sequence of three orders of 8 sizes (thorough 12), flat or not')]
