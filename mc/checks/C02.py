"""Losing packets damages exactly the chunks they carried, and exactly these are reported."""
LEVEL = 'fault_enumeration'
RULE = 'one case for each set of lost packets, configuration and data pattern; distinct: different configuration or observed damage'
from mc.core import Harness
from mc.common import index_patterns, words_of, chunks_of
from mc.interleaving import WORD_SIZES, pick_order


def check_loss(t, order, size, n_words, lost, styles, pats):
    from semantic_codec.interleaver.interleaver2d import interleave, deinterleave
    n = len(order)
    total = n_words * 32 // size
    # rounds the receiver can know about: some packet that arrived has a chunk in them
    rounds = 0
    for i, p in enumerate(order):
        if int(p) not in lost and total > i:
            rounds = max(rounds, (total - i + n - 1) // n)
    visible = min(total, rounds * n)
    lost_at = [c for c in range(rounds * n) if int(order[c % n]) in lost]
    place = lambda c: (c * size // 32, c * size % 32)
    outcome = set()
    for bits in pats:
        data = words_of(bits, n_words)
        packets = interleave(list(data), order, size)
        for p in lost:
            if styles[p]:
                packets[p] = None
            else:
                del packets[p]
        if len(lost) == n:
            try:
                deinterleave(packets, order, size)
            except RuntimeError:
                outcome.add('refused')
                continue
            t.check(False, 'every packet is lost and deinterleaving did not refuse')
        got, errors = deinterleave(packets, order, size)
        got = list(got)
        reported = [tuple(int(x) for x in e[:2]) for e in errors]
        t.check(len(set(reported)) == len(reported), 'a position is reported twice: {}', reported)
        inside = [e for e in reported if e[0] * 32 + e[1] < total * size]
        t.equal(sorted(inside), sorted(place(c) for c in lost_at if c < total), 'reported errors')
        extra = [e for e in reported if e not in inside]
        t.check(all(e in [place(c) for c in lost_at] for e in extra), 'errors reported that no lost packet explains: {}', extra)
        want = chunks_of(data, size)
        have = chunks_of(got + [0] * n_words, size)
        for c in range(visible):
            if int(order[c % n]) in lost:
                t.check(have[c] == 0, 'chunk {} was lost and does not read as zero: {:x}', c, have[c])
            else:
                t.check(have[c] == want[c], 'chunk {} was received as {:x} and recovered as {:x}', c, want[c], have[c])
        t.check(not any(have[visible:]), 'stray bits after the last chunk')
        outcome.add((tuple(inside), visible))
        t.step(len(want) + 2)
    t.state(tuple(order), size, n_words, tuple(sorted(lost)))


def small(t):
    big = t.tier == 'thorough'
    order = pick_order(t, [1, 2, 3, 4, 5] + ([6, 7] if big else []))
    size = t.pick(WORD_SIZES if big or len(order) < 4 else [2, 8, 32])
    n_words = t.int(1, 4 if big else 3)
    lost = t.subset(sorted(int(p) for p in order))
    styles = {p: 0 for p in lost}
    if len(order) <= 3:
        styles = {p: t.choose(2) for p in lost}
    elif lost:
        s = t.choose(2)
        styles = {p: s for p in lost}
    check_loss(t, order, size, n_words, lost, styles, index_patterns(n_words * 32))
    t.sample(order=[int(x) for x in order], chunk_bits=size, words=n_words, lost=lost)


def large(t):
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp
    big = t.tier == 'thorough'
    n = t.pick([7, 16, 17, 20] + ([21, 33, 64, 65] if big else []))
    order = build_2d_interleave_sp(n, flat=True)
    size = t.pick([2, 8, 16] if not big else WORD_SIZES)
    n_words = t.pick([1, 2, 3, 16] if not big else [1, 2, 3, 4, 8, 16, 33])
    ids = [int(p) for p in order]
    lost = t.subset(ids, 2) if n < 40 else t.subset(ids, 1)
    style = t.choose(2) if lost else 0
    check_loss(t, order, size, n_words, lost, {p: style for p in lost}, index_patterns(n_words * 32)[1:7])
    t.sample(packets=n, chunk_bits=size, words=n_words, lost=lost)


def long(t):
    """Hundreds of words"""
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp
    big = t.tier == 'thorough'
    n = t.pick([2, 3, 16, 17, 64, 100, 257, 300] + ([256, 513, 1025] if big else []))
    order = build_2d_interleave_sp(n, flat=True)
    size = t.pick([2, 8, 16, 32])
    n_words = t.pick([33, 100, 257] + ([300, 1025] if big else []))
    ids = [int(p) for p in order]
    lost = t.pick([[ids[0]], [ids[-1]], [ids[n // 2], ids[0]], ids[1:], ids[:-1], ids[::2]])
    style = t.choose(2)
    check_loss(t, order, size, n_words, lost, {p: style for p in lost}, index_patterns(n_words * 32)[1:3])
    t.sample(packets=n, chunk_bits=size, words=n_words, lost=lost)


HARNESSES = [Harness('every-loss-small', small,
                     'every order of 1..4 packets and the 2D order of 5 (thorough 7) x chunk sizes x 1..3 (4) words x '
                     'every subset of lost packets (including all) x lost as missing entry or as empty entry'),
             Harness('up-to-two-losses', large,
                     '2D order of 7, 16, 17, 20 (thorough up to 65) packets x every set of at most 2 lost packets'),
             Harness('long', long, '2D order of 2..300 (thorough 1025) packets x 33..257 (1025) words x the first, the last, two, all but '
                     'one, or every other packet lost')]
