"""Huffman codes"""
from bisect import insort
from mc.core import Harness
from mc.stub_darm import install


def lengths(n):
    """Every multiset of code lengths of a full binary tree with n leaves"""
    if n == 1:
        return {(0,)}
    res = set()
    for k in range(1, n // 2 + 1):
        for a in lengths(k):
            for b in lengths(n - k):
                res.add(tuple(sorted(x + 1 for x in a + b)))
    return res


_best = {}


def merging_cost(weights):
    """The cost of an optimal code of many symbols: the two smallest weights are joined until one is left"""
    w, cost = sorted(weights), 0
    while len(w) > 1:
        a = w.pop(0) + w.pop(0)
        cost += a
        insort(w, a)
    return cost


def best_cost(weights):
    n = len(weights)
    if n > 12:
        return merging_cost(weights)
    if n not in _best:
        _best[n] = lengths(n)
    w = sorted(weights, reverse=True)
    least = min(sum(a * b for a, b in zip(w, l)) for l in _best[n])
    assert least == merging_cost(weights)
    return least


def check(t, freq, what):
    from semantic_codec.compressor.huffman import encode, huffman_size
    before = dict(freq)
    codes = [(s, c) for s, c in encode(freq)]
    t.equal(freq, before, 'frequencies after encoding %s' % what)
    t.equal(sorted(map(str, (s for s, _ in codes))), sorted(map(str, freq)), 'symbols of the code of %s' % what)
    t.check(all(c and set(c) <= {'0', '1'} for _, c in codes), 'a code of {} is not binary: {}', what, codes)
    for s, c in codes:
        for r, d in codes:
            t.check(s == r or not d.startswith(c), 'the code {} of {} begins with that of {}, frequencies {}', d, r, s, what)
    t.check([len(c) for _, c in codes] == sorted(len(c) for _, c in codes), 'the codes are not given from short to long, {}', what)
    cost = sum(freq[s] * len(c) for s, c in codes)
    t.check(cost == best_cost(freq.values()), 'the code of {} takes {} bits, {} are enough', what, cost, best_cost(freq.values()))
    t.equal(huffman_size(freq), cost, 'size of %s' % what)
    t.equal(huffman_size(freq, [[s, c] for s, c in codes]), cost, 'size of %s with a given code' % what)
    table = {c: s for s, c in codes}
    message = [s for s, c in codes for _ in range(2)] + [s for s, _ in reversed(codes)]
    enc, word, dec = ''.join(dict(codes)[s] for s in message), '', []
    for b in enc:
        word += b
        if word in table:
            dec.append(table[word])
            word = ''
    t.equal((dec, word), (message, ''), 'message decoded')
    t.step(3)
    t.state(tuple(sorted(freq.values())), tuple(len(c) for _, c in codes))
    t.sample(frequencies=freq, codes=codes)


def body(t):
    install()
    big = t.tier == 'thorough'
    n = t.int(2, 7 if big else 6)
    top = {2: 13, 3: 13, 4: 9, 5: 6, 6: 4, 7: 4}[n]
    freq, least = {}, 0
    names = t.pick([list(range(7)), list('gfedcba')])
    ordered = n > 4         # any order of the weights among the symbols for few symbols
    for i in range(n):
        w = t.int(least, top)
        freq[names[i]] = w
        least = w if ordered else 0
        if n == 4 and not big:
            least = max(0, w - 3)
    check(t, freq, freq)


def skewed(t):
    install()
    n = t.int(2, 10 if t.tier == 'quick' else 12)
    kind = t.pick(['fibonacci', 'powers', 'equal', 'one'])
    a, b, freq = 1, 1, {}
    for i in range(n):
        freq['s%02d' % i] = {'fibonacci': a, 'powers': 2 ** i, 'equal': 5, 'one': 1000 if i == n // 2 else 1}[kind]
        a, b = b, a + b
    check(t, freq, freq)


def large(t):
    """Alphabets of the size of those of programs"""
    install()
    n = t.pick([13, 20, 21, 22, 32, 33, 64, 100, 200])
    kind = t.pick(['equal', 'two values', 'counting', 'triangular', 'reversed', 'cycle', 'fibonacci'])
    extra = t.pick([0, 1, n])
    a, b, freq = 1, 1, {}
    for i in range(n):
        freq['s%03d' % i] = {'equal': 3, 'two values': 1 + i % 2, 'counting': i, 'triangular': i * (i + 1) // 2, 'reversed': n - i,
                             'cycle': i * 7 % 11, 'fibonacci': a}[kind] + (extra if i == n // 2 else 0)
        a, b = b, a + b
    check(t, freq, '%d symbols, %s + %d' % (n, kind, extra))


HARNESSES = [Harness('weights', body, 'every frequencies 0..13 of 2 and 3 symbols, most of 0..9 of 4, and non decreasing 0..6 of 5 and 0..4 of 6 (7)'),
             Harness('skewed', skewed, 'Fibonacci, power, equal and single frequencies of 2..10 (12) symbols'),
             Harness('large', large, '13..200 symbols x 7 shapes of the frequencies x 3 values of one of them')]
