"""The packet loss corruptor leaves at each address exactly the variants over the bits that were lost."""
LEVEL = 'fault_enumeration'
RULE = 'one case for each set of lost packets, configuration and data pattern; distinct: different configuration or observed damage'
from mc.core import Harness
from mc.common import scratch
from mc.programs import CODE, inst, BASE, encodings

ORIG = ['cmp r1,#0', 'bne -8', 'ldr r0,[r1]', 'zero', 'add r0,r0,r1', 'undefined']


def variants(value, bits):
    res = [value]
    for b in bits:
        res += [v ^ (1 << b) for v in res]
    return sorted(res)


def lost_bits(order, size, n_words, lost, at_end):
    """word -> lost bits; at_end: with the known finding about chunks that end at bit 31"""
    res = {w: set() for w in range(n_words + 1)}
    n = len(order)
    for c in range(n_words * 32 // size):
        if int(order[c % n]) not in lost:
            continue
        w, off = divmod(c * size, 32)
        if off + size == 32 and at_end:
            res[w] |= set(range(off, 31))
            res[w + 1].add(0)
        else:
            res[w] |= set(range(off, off + size))
    return [sorted(res[w]) for w in range(n_words)]


def run(t, n, size, n_words, lost, layout, own_order, save, most=6):
    from semantic_codec.corruption.corruptors import PacketCorruptor, JSONCorruptor
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp
    addrs = [BASE + layout * i for i in range(n_words)]
    names = [ORIG[i % len(ORIG)] for i in range(n_words)]
    keys = list(zip(addrs, names))
    if t.bool():
        keys.reverse()        # the order in which the program lists its addresses does not matter
    program = {a: [inst(x, a)] for a, x in keys}
    order = build_2d_interleave_sp(n, flat=True)
    real = lost_bits(order, size, n_words, lost, False)
    quirk = lost_bits(order, size, n_words, lost, True)
    if max(len(b) for b in real + quirk) > (most if t.tier == 'quick' else most + 3):
        t.prune()
    with scratch():
        c = PacketCorruptor(n, n_words, order if own_order else None, list(lost), size, 'c.json' if save else None)
        res = c.corrupt(program)
        saved = encodings(JSONCorruptor('c.json').corrupt(None)) if save else None
    got = encodings(res)
    t.equal(sorted(got), addrs, 'addresses')
    if save:
        t.equal(saved, got, 'saved program')
    bad = False
    for i, a in enumerate(addrs):
        e = CODE[names[i]]
        if got[a] != variants(e, real[i]):
            t.check(got[a] == variants(e, quirk[i]), 'packets {} chunk {} words {} lost {}: address {} has {} candidates {}, '
                    'expected {} over the bits {}', n, size, n_words, lost, i, len(got[a]), [hex(x) for x in got[a][:8]],
                    2 ** len(real[i]), real[i])
            bad = True
        t.check(all(x.address == a for x in res[a]), 'a candidate has another address')
        t.check(e in got[a], 'the original of {:x} is not among its candidates', a)
    if bad:
        t.finding('chunk-at-word-end', 'candidates miss bit 31 and vary bit 0 of the next word')
    t.step(sum(len(v) for v in got.values()))
    t.state(n, size, n_words, tuple(lost), tuple(sorted((a, len(v)) for a, v in got.items())))
    t.sample(packets=n, chunk_bits=size, words=n_words, lost=lost, candidates=[len(got[a]) for a in addrs])


def losses(t):
    big = t.tier == 'thorough'
    n, size = t.pick([(16, 2), (32, 1), (7, 2), (8, 4), (5, 1), (20, 2), (64, 2)] + ([(4, 8), (17, 2), (33, 2)] if big else []))
    n_words = t.pick([1, 2, 4] if not big else [1, 2, 3, 4, 5])
    k = t.int(1, 2)
    if n > 20 and k == 2:
        lost = [t.pick([0, 1, n // 2, n - 1]), t.pick([2, n // 2 + 1, n - 2])]
        if lost[0] == lost[1]:
            t.prune()
    elif n > 8 and k == 2 and not big:
        lost = t.arrangement([0, 1, 2, n // 2, n - 2, n - 1], 2)
    else:
        lost = t.arrangement(range(n), k)
    run(t, n, size, n_words, lost, 4, True, False)


def again(t):
    """A program that lost packets before: every candidate is lost over the new bits"""
    from semantic_codec.corruption.corruptors import PacketCorruptor
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp
    n, size = t.pick([(16, 2), (7, 2)] if t.tier == 'quick' else [(16, 2), (8, 1), (7, 2)])
    n_words = t.int(1, 2 if t.tier == 'quick' else 3)
    base = t.pick([BASE, 0x7ffffffc, 0])        # the addresses have 32 bits
    addrs = [base + 4 * i for i in range(n_words)]
    program = {}
    for i, a in enumerate(addrs):
        e = CODE[ORIG[(i + 3) % len(ORIG)]]
        program[a] = [inst(x, a) for x in [e, e ^ 0x10, e ^ (1 << 27), e ^ 1][:t.pick([1, 3, 4])]]
        if t.bool():
            program[a][-1].ignore = True
    lost = [t.choose(n)]
    order = build_2d_interleave_sp(n, flat=True)
    corruptor = PacketCorruptor(n, n_words, order if t.bool() else None, list(lost), size)
    for turn in (1, 2):
        before = encodings(program)
        program = corruptor.corrupt(program)
        got = encodings(program)
        bad = False
        for i, a in enumerate(addrs):
            want, quirk = [sorted({v for e in before[a] for v in variants(e, lost_bits(order, size, n_words, lost, q)[i])})
                           for q in (False, True)]
            if got[a] != want:
                t.check(got[a] == quirk, 'packets {} chunk {} words {} lost {}, loss number {}: address {} has the candidates {}, expected {}',
                        n, size, n_words, lost, turn, i, [hex(x) for x in got[a][:9]], [hex(x) for x in want[:9]])
                bad = True
        if bad:
            t.finding('chunk-at-word-end', 'candidates miss bit 31 and vary bit 0 of the next word')
        t.step(n_words)
    t.state(n, tuple(lost), str(got))


def large(t):
    """Programs of hundreds of words"""
    big = t.tier == 'thorough'
    n, size = t.pick([(16, 2), (32, 1), (64, 2), (100, 2), (20, 4)] + ([(255, 1), (256, 2), (300, 1)] if big else []))
    run(t, n, size, t.pick([33, 100, 257] + ([1025] if big else [])), t.pick([[0], [n - 1], [n // 2, 1]]), 4, True, t.bool(), 8)


def half(t):
    """A word that lost many of its bits"""
    n, size = t.pick([(2, 1), (3, 1), (3, 2), (4, 2)] + ([(2, 2)] if t.tier == 'thorough' else []))
    run(t, n, size, t.int(1, 2), [t.int(0, n - 1)], 4, t.bool(), False, 16)


def options(t):
    n_words = t.int(1, 3)
    run(t, 16, 2, n_words, [t.int(0, 15)], t.pick([4, 0x100]), t.bool(), t.bool())


def no_information(t):
    from semantic_codec.corruption.corruptors import PacketCorruptor
    lost = t.pick([None, []])
    try:
        PacketCorruptor(16, 1, None, lost).corrupt({BASE: [inst('nop', BASE)]})
    except RuntimeError:
        t.step(1)
        t.state(str(lost))
        return
    t.check(False, 'corrupting without packets lost was accepted')


HARNESSES = [Harness('losses', losses, '7 (thorough 10) packet counts and chunk sizes x 1..4 (5) words x one or two lost packets '
                     'in any listing order, also losses that carry no data'),
             Harness('large', large, '33..257 (thorough 1025) words x 5 (8) packet counts x 3 losses x saved or not', cpu_limit=100),
             Harness('half', half, '1..2 words x 4 (5) of 2..4 packets x the loss of one of them, up to 16 bits of a word', cpu_limit=100),
             Harness('again', again, '1..2 (thorough 3) words that have 1, 3 or 4 candidates before x 2 (3) packet counts x any packet lost, twice'),
             Harness('options', options, 'given or default order, address gaps, saving to JSON'),
             Harness('no-information', no_information, 'missing loss list')]
