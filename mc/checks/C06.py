"""BitQueue is a first in, first out queue of bits."""
from mc.core import Harness
from mc.common import index_patterns


def history(t, sizes, depth, offsets):
    """Any history of enqueue and dequeue operations, each with its own chunk size"""
    from semantic_codec.architecture.bits import BitQueue
    ops = []
    pending = 0
    stored = 0
    for _ in range(depth):
        kinds = ['e'] + (['d'] if pending else [])
        k = t.pick(kinds)
        ws = t.pick([s for s in sizes if k == 'e' or s <= pending])
        off = t.pick([o for o in offsets(ws)])
        ops.append((k, ws, off))
        pending += ws if k == 'e' else -ws
        stored += ws if k == 'e' else 0
    run(t, ops, stored)
    t.sample(operations=ops)


def run(t, ops, stored, chosen=slice(None)):
    from semantic_codec.architecture.bits import BitQueue
    # of the long histories, the words are looked at at three points only
    fill_of = sum(ws for k, ws, _ in ops if k == 'e')
    if len(ops) >= 200:
        fill_of = next((sum(o[1] for o in ops[:i]) for i, o in enumerate(ops) if o[0] == 'd'), fill_of)
    # all the bits ever stored, in order, numbered: the patterns tell each of them apart
    for stream in index_patterns(stored)[chosen]:
        for junk in (0, 0xffffffff):
            q = BitQueue(ops[0][1])
            e = d = 0
            t.check(q.empty(), 'a new queue is not empty')
            for k, ws, off in ops:
                q.word_size = ws
                mask = (1 << ws) - 1
                if k == 'e':
                    v = ((stream >> e) & mask) << off
                    v |= junk & ~(mask << off) & 0xffffffff   # bits around the chunk must not leak in
                    q.enqueue(v, off)
                    e += ws
                else:
                    got = q.dequeue(junk, off)
                    want = (((stream >> d) & mask) << off) | (junk & ~(mask << off) & 0xffffffff)
                    if got != want:
                        t.check(False, '{}: dequeue gave {:x}, expected {:x}', ops, got, want)
                    d += ws
                t.check(q.empty() == (e <= d), 'empty() is {} with {} bits in and {} bits out', q.empty(), e, d)
                if d == 0 and (len(ops) < 200 or e in (0, stored // 2 // ws * ws, fill_of)):
                    words = list(q.get_bytes())
                    total = sum((w & 0xffffffff) << (32 * i) for i, w in enumerate(words))
                    t.check(all(0 <= w < 2 ** 32 for w in words), 'a word with more than 32 bits: {}', words)
                    t.check(total == stream & ((1 << e) - 1), '{}: stored words {} are not the bits enqueued', ops, words)
            t.step(len(ops))
    t.state(tuple(ops))


def mixed(t):
    big = t.tier == 'thorough'
    history(t, [1, 5, 31, 32] + ([2, 16] if big else []), 5, lambda ws: [0])


def offsets(t):
    history(t, [1, 7, 16, 30, 31, 32], 3, lambda ws: sorted({0, 1, 32 - ws} & set(range(0, 33 - ws))))


def uniform(t):
    """One chunk size, long histories: fill to several words, then any alternation pattern"""
    big = t.tier == 'thorough'
    ws = t.int(1, 32)
    fill = t.pick([0, 32 // ws, 32 // ws + 1, 64 // ws + 1, 96 // ws + 2])
    ops = [('e', ws, 0)] * fill
    n = fill
    for _ in range(6 if not big else 9):
        if n and t.bool():
            ops.append(('d', ws, 0))
            n -= 1
        else:
            ops.append(('e', ws, 0))
            n += 1
    ops.extend([('d', ws, 0)] * n)
    run(t, ops, ws * sum(1 for o in ops if o[0] == 'e'))
    t.sample(chunk=ws, fill=fill, operations=len(ops))


def long(t):
    """Thousands of bits: filled, drained half way, filled again, drained"""
    ws = t.int(1, 32)
    words = t.pick([33, 129, 300] + ([1100] if t.tier == 'thorough' else []))
    fill = words * 32 // ws + 1
    run(t, [('e', ws, 0)] * fill + [('d', ws, 0)] * (fill // 2) + [('e', ws, 0)] * 3 + [('d', ws, 0)] * (fill - fill // 2 + 3),
        ws * (fill + 3), slice(2, 6))
    t.sample(chunk=ws, words=words)


def remainder(t):
    """Asking for more bits than there are gives the ones there are, and nothing else is left"""
    from semantic_codec.architecture.bits import BitQueue
    ins = t.seq([1, 3, 7, 12, 32] if t.tier == 'quick' else [1, 2, 3, 7, 12, 31, 32], 1, 3)
    stored = sum(ins)
    out = t.int(0, stored - 1)
    word, bit = divmod(out, 32)
    left = stored - out
    # the read stays inside of the word that the bits are in
    if bit + left >= 32:
        t.prune()
    ask = t.int(left, 32 - bit)
    for stream in index_patterns(stored):
        q = BitQueue(1)
        e = 0
        for ws in ins:
            q.word_size = ws
            q.enqueue((stream >> e) & ((1 << ws) - 1), 0)
            e += ws
        q.word_size = 1
        for i in range(out):
            t.equal(q.dequeue(0, 0), (stream >> i) & 1, 'bit %d' % i)
        q.word_size = ask
        t.equal(q.dequeue(0, 0), stream >> out & ((1 << left) - 1), 'the last %d bits, read as %d' % (left, ask))
        t.check(q.empty(), '{}: not empty after reading {} bits when {} were left', ins, ask, left)
        t.step(out + 2)
    t.state(tuple(ins), out, ask)
    t.sample(chunks=ins, read=out, asked=ask)


HARNESSES = [Harness('mixed-sizes', mixed, 'every history of 5 operations with chunk sizes 1,5,31,32 (thorough also 2,16)'),
             Harness('offsets', offsets, 'every history of 3 operations with chunk sizes 1,7,16,30,31,32 and chunk offsets '
                     '0, 1 and last in the value, surrounding bits all 0 or all 1'),
             Harness('one-size', uniform, 'chunk size 1..32, 5 fill levels, then every alternation of 6 (9) operations, '
                     'then drained'),
             Harness('long', long, 'chunk size 1..32, filled with 33, 129, 300 (thorough 1100) words, drained half way, filled and drained'),
             Harness('remainder', remainder, 'every sequence of 1..3 chunks of 5 sizes (thorough 7), read bit by bit up to any point '
                     'and then all at once with any size that fits in the word')]
