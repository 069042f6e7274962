"""Corrupting a set of bits in every way yields each of the 2^n variants exactly once."""
from mc.core import Harness


def check_all(t, got, value, bits):
    got = [int(x) for x in got]
    want = set()
    for k in range(2 ** len(bits)):
        v = value
        for i, b in enumerate(bits):
            if (k >> i) & 1:
                v ^= 1 << b
        want.add(v)
    t.check(len(got) == len(want), 'bits {} of {:x}: {} variants, expected {}', bits, value, len(got), len(want))
    t.check(set(got) == want, 'bits {} of {:x}: wrong variants {}', bits, value, sorted(set(got) ^ want)[:5])
    t.check(got[0] == value, 'the uncorrupted value is not the first variant')
    t.step(len(got))


VALUES = [0, 0xffffffff, 0xe59f502c]


def one_range(t):
    from semantic_codec.corruption.corruption import corrupt_all_bits
    lo = t.int(0, 32)
    width = t.int(0, min(32 - lo, 7 if t.tier == 'quick' else 9))
    for v in VALUES:
        check_all(t, corrupt_all_bits(lo, lo + width, v), v, list(range(lo, lo + width)))
    t.state(lo, width)
    t.sample(lo=lo, hi=lo + width)


def several(t):
    """Up to three disjoint ranges, listed in any order"""
    from semantic_codec.corruption.corruption import corrupt_all_bits_tuples
    big = t.tier == 'thorough'
    n = t.int(0, 3)
    ranges, free = [], 0
    for k in range(n):
        gap = t.pick([0, 1, 7] if not big else [0, 1, 2, 5, 8])
        width = t.pick([0, 1, 2, 4] if not big else [0, 1, 2, 3, 4])
        lo = free + gap
        if lo + width > 31:
            t.prune()
        ranges.append((lo, lo + width))
        free = lo + width
    ranges = t.arrangement(ranges, len(ranges))
    bits = [b for lo, hi in ranges for b in range(lo, hi)]
    for v in VALUES:
        check_all(t, corrupt_all_bits_tuples(ranges, v), v, bits)
    t.state(tuple(ranges))
    t.sample(ranges=ranges)


def high_bits(t):
    from semantic_codec.corruption.corruption import corrupt_all_bits_tuples
    lo = t.int(0, 31)
    hi = t.int(lo, min(31, lo + 9))
    v = t.pick(VALUES)
    check_all(t, corrupt_all_bits_tuples([(lo, hi)], v), v, list(range(lo, hi)))
    t.state(lo, hi, v)


def many_bits(t):
    from semantic_codec.corruption.corruption import corrupt_all_bits, corrupt_all_bits_tuples
    width = t.pick([10, 13, 17] if t.tier == 'quick' else [10, 11, 12, 13, 14, 16, 17, 18])
    lo = t.pick([0, 3, 31 - width])
    cut = t.pick([0, 1, 2, width // 2])
    v = t.pick(VALUES)
    ranges = [(lo, lo + cut), (lo + cut, lo + width)]
    check_all(t, corrupt_all_bits_tuples(ranges[::-1] if t.bool() else ranges, v), v, list(range(lo, lo + width)))
    if width in (10, 13) and cut == 0 and (width == 10 or v == VALUES[2]):
        check_all(t, corrupt_all_bits(lo + 1, lo + 1 + width, v), v, list(range(lo + 1, lo + 1 + width)))
    t.state(lo, width, cut, v)
    t.sample(lo=lo, width=width)


HARNESSES = [Harness('one-range', one_range, 'every range of 0..7 (thorough 9) bits anywhere in the word x 3 values'),
             Harness('several-ranges', several, 'up to 3 disjoint ranges of 0,1,2,4 bits at gaps 0,1,7, in any order'),
             Harness('one-tuple', high_bits, 'every single range of up to 9 bits below bit 31'),
             Harness('many-bits', many_bits, '10, 13 and 17 bits (thorough 10..14, 16..18) at 3 places, as one or two ranges in both orders x 3 values, 13 of them at once for one value', cpu_limit=60)]
