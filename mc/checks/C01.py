"""Interleaving and deinterleaving without losses is the identity."""
from mc.core import Harness
from mc.common import index_patterns, words_of, chunks_of
from mc.interleaving import WORD_SIZES, pick_order, packet_chunks, expected_packets


def body(t):
    from semantic_codec.interleaver.interleaver2d import interleave, deinterleave
    big = t.tier == 'thorough'
    sizes = list(range(1, 19)) + [20, 21, 64, 65] + ([19, 22, 23, 24, 31, 32, 33, 63, 80, 85, 100, 127, 128, 256] if big else [])
    order = pick_order(t, sizes, 6 if big else 4)
    size = t.pick(WORD_SIZES)
    n_words = t.int(0, 9 if big else 5)
    pats = index_patterns(n_words * 32) if n_words else [0]
    for bits in pats:
        data = words_of(bits, n_words)
        # The chunks are of 8 bits unless something else is said
        chunk = () if size == 8 else (size,)
        packets = interleave(list(data), order, *chunk)
        chunks = chunks_of(data, size)
        exp = expected_packets(chunks, order)
        t.equal(sorted(packets), sorted(exp), 'packets produced')
        for p in exp:
            t.equal(packet_chunks(packets[p], size), exp[p], 'chunks carried by packet %s' % p)
        got, errors = deinterleave(packets, order, *chunk)
        t.equal(list(errors), [], 'errors reported although nothing was lost')
        got = list(got)
        t.equal(got[:n_words], data, 'data after interleave and deinterleave')
        t.check(not any(got[n_words:]), 'stray bits after the end of the data: {}', got[n_words:])
        t.step(2 * len(chunks) + 2)
    t.state(len(order), tuple(order), size, n_words)
    t.sample(order=[int(x) for x in order[:8]], packets=len(order), chunk_bits=size, words=n_words, patterns=len(pats))


def long(t):
    """Data of hundreds of words: nothing depends on the amount"""
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp, interleave, deinterleave
    big = t.tier == 'thorough'
    order = build_2d_interleave_sp(t.pick([1, 2, 3, 7, 15, 16, 17, 64, 100, 101, 257, 300] + ([255, 256, 512, 513, 1025] if big else [])), flat=True)
    size = t.pick([1, 2, 8, 16, 32])
    n_words = t.pick([31, 64, 100, 257, 300] + ([1000, 2049] if big else []))
    every = index_patterns(n_words * 32)
    for bits in every if big else every[1:4] + every[-2:]:
        data = words_of(bits, n_words)
        packets = interleave(list(data), order, size)
        exp = expected_packets(chunks_of(data, size), order)
        t.equal(sorted(packets), sorted(exp), 'packets produced')
        for p in exp:
            t.check(packet_chunks(packets[p], size) == exp[p], 'chunks carried by packet {} of {} for {} words', p, len(order), n_words)
        got, errors = deinterleave(packets, order, size)
        t.equal(list(errors), [], 'errors reported although nothing was lost')
        got = list(got)
        t.check(got[:n_words] == data, 'data of {} words does not come back', n_words)
        t.check(not any(got[n_words:]), 'stray bits after the end of the data')
        t.step(2)
    t.state(len(order), size, n_words)
    t.sample(packets=len(order), chunk_bits=size, words=n_words)


HARNESSES = [Harness('round-trip', body,
                     'every order of 1..4 (thorough 6) packets and the 2D order of every count 4..18, 20, 21, 64, 65 (thorough: more '
                     'counts up to 256) x chunk size 1,2,4,8,16,32 bits x 0..5 (9) data words, with data patterns that '
                     'identify each input bit'),
             Harness('long', long, '2D order of 1..300 (thorough 1025) packets x chunk size 1,2,8,16,32 x 31..300 (2049) words')]
