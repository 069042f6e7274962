"""Copying a bit range moves exactly that range."""
from mc.core import Harness
from mc.common import index_patterns


def copy(t):
    from semantic_codec.architecture.bits import Bits
    lo = t.int(0, 31)
    hi = t.int(lo, 31)
    width = hi - lo + 1
    for dest in range(0, 33 - width):
        for src in index_patterns(32):
            for dst in (0, 0xffffffff, 0xa5a5a5a5):
                got = Bits.copy_bits(src, dst, lo, hi, dest)
                mask = ((1 << width) - 1) << dest
                want = (dst & ~mask & 0xffffffff) | (((src >> lo) << dest) & mask)
                if got != want:
                    t.check(False, 'copy of {}..{} of {:08x} to {} of {:08x}: {:08x}, expected {:08x}', lo, hi, src, dest, dst, got, want)
        t.step(36)
    for dest in range(33 - width, 34):
        refused(t, lambda: Bits.copy_bits(0, 0, lo, hi, dest), 'copy of %d bits to bit %d' % (width, dest))
    t.state(lo, hi)
    t.sample(lo=lo, hi=hi)


def refused(t, f, what):
    try:
        f()
    except RuntimeError:
        return
    t.check(False, what + ' does not fit a word and was not refused')


def ranges(t):
    from semantic_codec.architecture.bits import Bits
    lo = t.int(-1, 33)
    for hi in range(-1, 34):
        if 0 <= lo <= hi <= 31:
            mask = sum(1 << i for i in range(lo, hi + 1))
            t.equal(Bits.set(hi, lo), mask, 'bits %d..%d' % (lo, hi))
            Bits.check_range(lo, hi)
            for v in index_patterns(32) + [1 << k for k in range(32)]:
                t.equal(bool(Bits.are_on(v, hi, lo)), bool(v & mask), 'any bit of %d..%d on in %x' % (lo, hi, v))
        else:
            refused(t, lambda: Bits.check_range(lo, hi), 'range %d..%d' % (lo, hi))
            refused(t, lambda: Bits.set(hi, lo), 'mask %d..%d' % (lo, hi))
        t.step(1)
    if 0 <= lo <= 31:
        for v in index_patterns(32):
            t.equal(bool(Bits.is_on(v, lo)), bool((v >> lo) & 1), 'bit %d of %x' % (lo, v))
        t.equal(Bits.on(lo), 1 << lo, 'single bit')
    t.state(lo)


HARNESSES = [Harness('copy', copy, 'every source range and every destination of a 32 bit word (all 5984 copies and all '
                     'out of range destinations), bit identifying values'),
             Harness('ranges', ranges, 'every range -1..33')]
