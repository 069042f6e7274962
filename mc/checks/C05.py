"""Burst dispersion of the successive packing matrix."""
from mc.core import Harness


def window(t):
    from semantic_codec.interleaver.interleaver2d import sucesive_packing
    m = t.int(1, 5 if t.tier == 'quick' else 7)
    side = 2 ** m
    matrix = sucesive_packing(m)
    a = [[int(matrix[i][j]) for j in range(side)] for i in range(side)]
    t.equal(sorted(x for r in a for x in r), list(range(side * side)), 'numbers in the matrix')
    k = t.int(1, min(m, 5))
    w = 2 ** k
    i = t.int(0, side - 1)
    group = 4 ** (m - k)
    for j in range(side):
        # any square burst, also one that wraps around the border
        hit = sorted(a[(i + y) % side][(j + x) % side] // group for y in range(w) for x in range(w))
        t.check(hit == list(range(4 ** k)), 'm={} burst of {}x{} at ({},{}) hits groups {}', m, w, w, i, j, hit)
        t.step(1)
    t.state(m, k, i)
    t.sample(m=m, burst=w, row=i)


def huge(t):
    """More numbers than 16 bits hold"""
    from semantic_codec.interleaver.interleaver2d import sucesive_packing
    m = t.pick([8] if t.tier == 'quick' else [8, 9])
    side = 2 ** m
    matrix = sucesive_packing(m)
    a = [[int(x) for x in row] for row in matrix]
    t.check(sorted(x for r in a for x in r) == list(range(side * side)), 'the numbers of the matrix {}x{} are not all different', side, side)
    for k in (1, 2):
        w, group = 2 ** k, 4 ** (m - k)
        for i in (0, 1, side // 2 - 1, side - 1):
            for j in range(side):
                hit = sorted(a[(i + y) % side][(j + x) % side] // group for y in range(w) for x in range(w))
                t.check(hit == list(range(4 ** k)), 'm={} burst of {}x{} at ({},{}) hits groups {}', m, w, w, i, j, hit)
                t.step(1)
    t.state(m)
    t.sample(m=m)


def size_zero(t):
    from semantic_codec.interleaver.interleaver2d import sucesive_packing
    m = t.pick([0, -1])
    t.equal([list(r) for r in sucesive_packing(m)], [[0]], 'trivial matrix')
    t.state(m)
    t.step(1)


HARNESSES = [Harness('bursts', window, 'matrices 2^m x 2^m for m=1..5 (thorough 7), every 2^k x 2^k burst, k up to 5, at every '
                     'position including the wrapped ones'),
             Harness('huge', huge, 'the matrix of 256x256 (thorough 512x512), bursts of 2x2 and 4x4 in four rows', cpu_limit=120),
             Harness('trivial', size_zero, 'm <= 0')]
