"""The lattice interleaving matrix separates the cells of a burst"""
import math
from mc.core import Harness


def matrix(n, packet, w, h):
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_matrix_blaum
    return build_2d_interleave_matrix_blaum(n, packet, w, h)


def ranges(t):
    m = t.int(1, 40 if t.tier == 'quick' else 120)
    packet = t.pick([1, 4, 16])
    w = t.pick([1, m, 2 * m + 1])
    h = t.int(1, 6)
    a = matrix(m * packet, packet, w, h)
    t.equal((len(a), {len(r) for r in a}), (h, {w}), 'shape')
    for r in a:
        t.check(all(int(v) == v and 0 <= v < m for v in r), 'a packet out of 0..{}: {}', m - 1, r)
        for i in range(0, w - m + 1):
            t.equal(sorted(r[i:i + m]), list(range(m)), 'packets of %d consecutive cells' % m)
    t.step(1)
    t.state(m, w, h, tuple(map(tuple, a)))
    t.sample(packets=m, width=w, height=h)


def bursts(t):
    """(t*t+1)/2 packets: cells of the same packet are at least t steps apart"""
    k = t.pick([1, 3, 5, 7, 9, 11] + ([13, 15] if t.tier == 'thorough' else []))
    m = (k * k + 1) // 2
    w, h = t.pick([(m, m), (2 * m, k), (k, 2 * m), (2 * k, 2 * k)])
    a = matrix(m, 1, w, h)
    for y in range(h):
        for x in range(w):
            for dy in range(0, k):
                for dx in range(-(k - 1 - dy), k - dy):
                    if (dx, dy) != (0, 0) and 0 <= x + dx < w and y + dy < h:
                        t.check(a[y][x] != a[y + dy][x + dx], '{} packets: cells ({},{}) and ({},{}) have the same packet {}', m, x, y,
                                x + dx, y + dy, a[y][x])
    t.step(w * h)
    t.state(k, w, h)
    t.sample(packets=m, burst=k, width=w, height=h)


def inferred(t):
    """One side of the data is enough, none is refused"""
    total = t.pick([16, 40, 64, 90])
    packet = t.pick([1, 2, 5])
    side = t.pick([2, 5, 8])
    kind = t.pick(['width', 'height', 'none'])
    if kind == 'none':
        try:
            if t.bool():
                matrix(total, packet, -1, -1)
            else:
                from semantic_codec.interleaver.interleaver2d import build_2d_interleave_matrix_blaum
                build_2d_interleave_matrix_blaum(total, packet)
        except RuntimeError:
            t.step(1)
            t.state('none')
            return
        t.check(False, 'a matrix without sides was built')
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_matrix_blaum
    if t.bool():
        a = matrix(total, packet, *((side, -1) if kind == 'width' else (-1, side)))
    else:
        a = build_2d_interleave_matrix_blaum(total, packet, **{'data_' + kind: side})
    other = total / side
    got = len(a) if kind == 'width' else len(a[0])
    t.check(abs(got - other) <= 0.5, 'the other side of {} cells with {} {} is {}', total, kind, side, got)
    t.equal((len(a[0]) if kind == 'width' else len(a)), side, kind)
    t.step(1)
    t.state(total, packet, side, kind)
    t.sample(cells=total, side=side, given=kind)


HARNESSES = [Harness('ranges', ranges, '1..40 (thorough 120) packets x 3 packet sizes x 3 widths x 6 heights'),
             Harness('bursts', bursts, 'odd bursts of 1..11 (15) cells, every pair of cells of four shapes of data'),
             Harness('inferred', inferred, 'one side given, or none')]
