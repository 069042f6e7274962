"""Model of the interleaver: chunk c of the stream belongs to packet order[c mod n]."""
from mc.common import index_patterns, words_of, chunks_of, permutations

WORD_SIZES = [1, 2, 4, 8, 16, 32]


def pick_order(t, sizes, every=4):
    """Any order of the counts up to the given one, the successive packing order for the larger ones"""
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp
    n = t.pick(sizes)
    if n > every:
        return build_2d_interleave_sp(n, flat=True)
    orders = permutations(range(n))
    kind = t.int(0, len(orders) - (1 if n < 4 else 0))
    return orders[kind] if kind < len(orders) else build_2d_interleave_sp(n, flat=True)


def packet_chunks(queue, size):
    """What a packet carries, observed by emptying a copy of it"""
    import copy
    q = copy.deepcopy(queue)
    res = []
    while not q.empty():
        res.append(q.dequeue(0, 0))
        if len(res) > 100000:
            return ['never empty']
    return res


def expected_packets(chunks, order):
    n = len(order)
    res = {int(p): [] for p in order}
    for c, v in enumerate(chunks):
        res[int(order[c % n])].append(v)
    return res
