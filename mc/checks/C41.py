"""Compressors: exactly the listed bits are removed (shift) or cleared (swap)"""
from mc.core import Harness

WORDS = [0x00000000, 0xffffffff, 0x80000001, 0xe3a01001, 0x12345678]


def bits_of(words):
    """Big endian bits of the bytes of little endian words, as text"""
    return ''.join(format(b, '08b') for w in words for b in w.to_bytes(4, 'little'))


def pack(text):
    text += '0' * (-len(text) % 8)
    return bytes(int(text[i:i + 8], 2) for i in range(0, len(text), 8))


def chunks(t, n, size, most):
    """Up to `most` chunks that do not overlap, in any order"""
    places = [(w, b) for w in range(n) for b in t_bits(size) if (w * 32 + b + size) <= n * 32]
    res = list(t.subset(places, most))
    at = [w * 32 + b for w, b in res]
    if any(b - a < size for a, b in zip(at, at[1:])):
        t.prune()
    if res and t.bool():
        res.reverse()
    return res


def t_bits(size):
    return [b for b in (0, 2, 4, 6, 8, 16, 24, 30 if size <= 2 else 28) if b % size == 0] + ([33 - size, 31] if size > 2 else [31] if size == 2 else [])


def shift(t):
    from semantic_codec.compressor.shiftcompressor import ShiftCompressor
    big = t.tier == 'thorough'
    n = t.int(1, 3)
    size = t.pick([1, 2, 4, 8])
    words = [t.pick(WORDS[1:] if big else WORDS[2:4]) for _ in range(n)]
    listed = chunks(t, n, size, 3 if big else 2)
    want = bits_of(words)
    gone = {w * 32 + b + i for w, b in listed for i in range(size)}
    want = ''.join(c for i, c in enumerate(want) if i not in gone)
    before = list(listed)
    c = ShiftCompressor(listed, list(words), size)
    c.compress()
    t.equal(c.compressed_buffer, pack(want), 'words %s without %s, %d bits each' % (words, listed, size))
    t.equal(listed, before, 'list of bits')
    c.compress()
    t.equal(c.compressed_buffer, pack(want), 'words %s without %s, compressed again' % (words, listed))
    if size == 2:
        d = ShiftCompressor(listed, list(words))
        d.compress()
        t.equal(d.compressed_buffer, pack(want), 'words %s without %s, default size' % (words, listed))
    t.step(2)
    t.state(tuple(words), tuple(listed), size)
    t.sample(words=words, removed=listed, size=size)


def large(t):
    """Programs of dozens of words: patterns of bits all over the program"""
    from semantic_codec.compressor.shiftcompressor import ShiftCompressor, SwapCompressor
    n = t.pick([17, 40, 65, 4500] + ([257, 9000] if t.tier == 'thorough' else []))
    size = t.pick([1, 2, 4, 8] + ([16, 32] if n < 4500 else []))
    words = [(0x9e3779b1 * (i + 1)) & 0xffffffff for i in range(n)]
    step = t.pick([1, 3, 7, 16, 32, n] if n < 4500 else [199, n])
    start = t.pick([0, 1, 31])
    listed = [divmod(p * size, 32) for p in range(start, n * 32 // size, step)]
    if t.bool():
        listed = listed[::-1]
    if t.bool():
        half = len(listed) // 2
        listed = listed[half:] + listed[:half]
    gone = {w * 32 + b + i for w, b in listed for i in range(size)}
    text = bits_of(words)
    c = ShiftCompressor(listed, list(words), size)
    c.compress()
    t.check(c.compressed_buffer == pack(''.join(x for i, x in enumerate(text) if i not in gone)),
            '{} words without {} chunks of {} bits, one in {} from {}', n, len(listed), size, step, start)
    if size == 1:
        c = SwapCompressor(listed, list(words))
        c.compress()
        t.check(c.compressed_buffer == pack(''.join('0' if i in gone else x for i, x in enumerate(text))),
                '{} words with {} bits cleared, one in {} from {}', n, len(listed), step, start)
    t.step()
    t.state(n, size, step, start, tuple(listed[:2]))
    t.sample(words=n, removed=len(listed), size=size)


def swap(t):
    from semantic_codec.compressor.shiftcompressor import SwapCompressor
    big = t.tier == 'thorough'
    n = t.int(1, 3)
    words = [t.pick(WORDS[1:] if big else WORDS[1:3]) for _ in range(n)]
    places = [(w, b) for w in range(n) for b in ((0, 1, 7, 8, 15, 31) if n < 3 else (0, 15, 31))] + [(n, 0)]
    listed = list(t.subset(places, 4 if big else 3))
    if listed and t.bool():
        listed.reverse()
    c = SwapCompressor(listed, list(words))
    c.compress()
    cleared = {w * 32 + b for w, b in listed}
    want = ''.join('0' if i in cleared else x for i, x in enumerate(bits_of(words)))
    t.equal(c.compressed_buffer, pack(want), 'words %s with %s cleared' % (words, listed))
    t.step()
    t.state(tuple(words), tuple(listed))
    t.sample(words=words, cleared=listed)


HARNESSES = [
    Harness('shift', shift, '1..3 words of 2 (thorough 4) contents x every set of up to 2 (thorough 3) chunks of 1, 2, 4 or 8 bits at 4..8 '
            'places of every word, some of which end in the next word, in both orders; compressed twice'),
    Harness('large', large, '17..65 and 4500 (thorough 257, 9000) words x chunks of 1, 2, 4, 8, 16, 32 bits removed or cleared, one in 1..32 (199) from 3 starts, in 4 orders'),
    Harness('swap', swap, '1..3 words of 2 (thorough 4) contents x every set of up to 3 (thorough 4) bits at 3 or 6 places of every word and '
            'one place outside, in both orders'),
]
