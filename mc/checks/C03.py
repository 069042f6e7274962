"""The corruption predicted for a loss is the corruption the loss causes."""
LEVEL = 'fault_enumeration'
RULE = 'one case for each set of lost packets, configuration and data pattern; distinct: different configuration or observed damage'
from mc.core import Harness
from mc.interleaving import WORD_SIZES


def expand(errors, size):
    bits = set()
    for e in errors:
        ln = e[2] if len(e) > 2 else size
        for i in range(int(ln)):
            bits.add(int(e[0]) * 32 + int(e[1]) + i)
    return bits


def prediction(t, order, size, n_words, lost_order):
    from semantic_codec.corruption.corruption import predict_corruption
    n = len(order)
    errors = predict_corruption(n, size, n_words, list(order), list(lost_order))
    t.step(1)
    total = n_words * 32
    lost = set(lost_order)
    starts = [b for b in range(0, total, size) if int(order[(b // size) % n]) in lost]
    want = set()
    for b in starts:
        want |= set(range(b, b + size))
    want = {b for b in want if b < total}
    plain = [e for e in errors]
    t.check(len(set(plain)) == len(plain), 'a position is predicted twice')
    # known: a chunk that reaches bit 31 is described one bit short, and bit 0 of the next word is blamed instead
    quirk = set()
    for b in starts:
        off = b % 32
        if off + size >= 32:
            quirk |= set(range(b, b + 31 - off))
            nxt = (b // 32 + 1) * 32
            quirk |= set(range(nxt, nxt + off + size - 31))
        else:
            quirk |= set(range(b, b + size))
    got = {b for b in expand(errors, size)}
    inside = {b for b in got if b < total}
    for b in got - inside:
        t.check(b in quirk or b in {x for s in starts for x in range(s, s + size)}, 'bit {} after the end of the data is predicted', b)
    t.state(tuple(order), size, n_words, tuple(sorted(lost)), tuple(sorted(inside)))
    if inside != want:
        t.check(inside == {b for b in quirk if b < total}, 'order {}, {} bits, {} words, lost {}: predicted bits {} but the lost '
                'ones are {}', list(order), size, n_words, lost_order, sorted(inside), sorted(want))
        t.finding('chunk-at-word-end', 'a lost chunk that ends at bit 31 of a word is predicted one bit short and bit 0 of '
                  'the next word is predicted instead')
    return inside


def arithmetic(t):
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp
    from mc.common import permutations
    big = t.tier == 'thorough'
    n = t.pick(list(range(1, 6 if not big else 7)) + [7, 16, 17] + ([20, 33, 64] if big else []))
    order = t.pick(permutations(range(n))) if n <= 3 else build_2d_interleave_sp(n, flat=True)
    size = t.pick(WORD_SIZES + [3, 5, 7, 12])
    n_words = t.int(1, 5) if n < 6 else t.pick([1, 2, 5, 9])
    ids = sorted(int(p) for p in order)
    if n <= 3:
        k = t.int(1, n)
        lost = t.arrangement(ids, k)          # the order in which losses are listed must not matter
    elif n <= 6:
        lost = t.subset(ids)
        if not lost:
            t.prune()
        if t.bool():
            lost = lost[::-1]
    else:
        k = t.int(1, 2)
        lost = t.arrangement(ids, k) if n < 18 or k == 1 else [ids[0], t.pick(ids[1:])]
    prediction(t, order, size, n_words, lost)
    t.sample(packets=n, chunk_bits=size, words=n_words, lost=lost)


def long(t):
    """Hundreds of words and packets"""
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp
    big = t.tier == 'thorough'
    n = t.pick([1, 2, 3, 16, 17, 64, 100, 256] + ([257, 300, 1000] if big else []))
    order = build_2d_interleave_sp(n, flat=True)
    size = t.pick(WORD_SIZES)
    n_words = t.pick([40, 100, 257, 513] + ([300, 1025] if big else []))
    ids = [int(p) for p in order]
    lost = t.pick([[ids[0]], [ids[-1]]] + ([[ids[n // 2], ids[0]], ids[1:], ids[::2]] if n > 1 else []))
    prediction(t, order, size, n_words, lost)
    t.sample(packets=n, chunk_bits=size, words=n_words, lost=lost[:6])


def uneven(t):
    """One chunk lost at the beginning and a run of them at the end: the losses are as unevenly spread as they can be"""
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp
    big = t.tier == 'thorough'
    n = t.pick(list(range(6, 18)) if big else [6, 9, 10, 13, 16, 17])
    order = [int(p) for p in build_2d_interleave_sp(n, flat=True)]
    size = t.pick(WORD_SIZES)
    n_words = t.int(1, 8)
    i = t.int(0, n - 2)
    j = t.int(i + 1, n - 1)
    lost = [order[i]] + order[j:]
    prediction(t, order, size, n_words, lost if t.bool() else lost[::-1])
    t.sample(packets=n, chunk_bits=size, words=n_words, lost=lost)


def against_channel(t):
    """Prediction = what interleave, loss, deinterleave really damages"""
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp, interleave, deinterleave
    n = t.pick([2, 3, 4, 5, 7, 16])
    order = build_2d_interleave_sp(n, flat=True)
    size = t.pick(WORD_SIZES)
    n_words = t.pick([1, 2, 3, 8])
    ids = sorted(int(p) for p in order)
    lost = t.subset(ids, 2 if n > 5 else n - 1)
    if not lost:
        t.prune()
    data = [0xffffffff] * n_words
    packets = interleave(data, order, size)
    for p in lost:
        del packets[p]
    got, _ = deinterleave(packets, order, size)
    got = (list(got) + [0] * n_words)[:n_words]
    damaged = {w * 32 + b for w in range(n_words) for b in range(32) if not (got[w] >> b) & 1}
    inside = prediction(t, order, size, n_words, lost)
    # the known finding is accounted for inside prediction(): here every other bit has to agree
    if inside != damaged:
        diff = inside ^ damaged
        t.check(all(b % 32 in (31, 0) for b in diff), 'predicted and real damage differ at bits {}', sorted(diff))
    t.step(3)
    t.sample(packets=n, chunk_bits=size, words=n_words, lost=lost)


HARNESSES = [Harness('arithmetic', arithmetic,
                     '1..5 (thorough 6) packets in any order (n<=3) or 2D order, 7, 16, 17 (20, 33, 64) packets x chunk '
                     'sizes 1..32 dividing the word or not x 1..9 words x every set and listing order of lost packets (n<=5), '
                     'at most 2 lost otherwise'),
             Harness('long', long, '2D order of 1..256 (thorough 1000) packets x 40..513 (1025) words x the first, the last, two, all but '
                     'one, or every other packet lost', cpu_limit=150),
             Harness('uneven', uneven, '2D order of 6..17 packets x chunk sizes x 1..8 words x one packet and a run of the last ones lost'),
             Harness('against-the-channel', against_channel,
                     'the same prediction compared with the bits that interleave, loss and deinterleave damage')]
