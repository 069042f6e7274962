"""A solution file that is written is read back the same."""
from mc.core import Harness
from mc.common import scratch
from mc.programs import CODE, UNUSUAL, inst, BASE, encodings


def write(t, lists, place, addrs, as_list):
    """lists[i][place[i]] is the original of address i"""
    from semantic_codec.solution.solution_io import SolutionWriter
    program = {a: [inst(e, a) for e in v] if len(v) < 65537 else [inst(v[0], a)] * (len(v) - 1) + [inst(v[-1], a)] for a, v in zip(addrs, lists)}
    original = [inst(v[p], a) for v, p, a in zip(lists, place, addrs)]
    if not as_list:
        original = {x.address: [x] for x in original}
    SolutionWriter().write_binary('x.sol', original, program)
    return program


def body(t):
    from semantic_codec.solution.solution_io import SolutionReader
    big = t.tier == 'thorough'
    n = t.int(0, 3)
    alphabet = [CODE['cmp r1,#0'], CODE['cmp r1,#0 *'], CODE['bne -8'], 0xffffffff, 0, CODE['add r0,r0,r1'], CODE['bne -8'] ^ 1 << 31]
    alphabet = {2: alphabet[:5] + alphabet[6:] if big else alphabet[:3] + alphabet[6:], 3: alphabet[:4] if big else alphabet[3::2]}.get(n, alphabet)
    lists, place = [], []
    for _ in range(n):
        v = t.seq(alphabet, 1, 3 if n < 2 or (big and n < 3) else 2)
        p = t.pick([v.index(e) for e in sorted(set(v))])
        lists.append(v)
        place.append(p)
    if n < 2 or big:
        addrs, as_list, stale = t.choose(3), t.bool(), t.bool()
    else:
        addrs, as_list, stale = t.pick([(0, True, False), (1, False, False), (2, True, False)])
    addrs = [[0x10000, 0xfffffffc, 0], [8, 4, 0x80000000], [2, 0xffffffff, 7]][addrs][:n]
    with scratch():
        if stale:
            open('x.sol', 'wb').write(b'\xff' * 400)      # an older and longer file
        program = write(t, lists, place, addrs, as_list)
        t.equal(encodings(program), dict(zip(addrs, lists)), 'the program that was written')
        original, got = SolutionReader().read('x.sol')
    t.equal(encodings(got), {a: v[:p + 1] for a, v, p in zip(addrs, lists, place)}, 'candidates read')
    t.equal(list(got), addrs, 'order of the addresses')
    t.equal(encodings(original), {a: [v[p]] for a, v, p in zip(addrs, lists, place)}, 'originals read')
    t.check(all(x.address == a for m in (got, original) for a, v in m.items() for x in v), 'an instruction has another address')
    t.step(2)
    t.state(tuple(map(tuple, lists)), tuple(place), tuple(addrs))
    t.sample(addresses=addrs, candidates=[[hex(e) for e in v] for v in lists], originals=place)


def large(t):
    """Hundreds of addresses, tens of thousands of candidates"""
    from semantic_codec.solution.solution_io import SolutionReader
    shapes = [(257, 1), (300, 3), (1, 300), (2, 257), (3, 1030)] + ([(1, 70000), (70000, 1)] if t.tier == 'thorough' else [])
    n, m = t.pick(shapes + [(1, 65537)])        # more than 16 bits count
    few = max(n, m) == 65537
    place = m - 1 if few else t.pick(sorted({0, m // 2, m - 1, min(255, m - 1), min(256, m - 1)}))
    order = 1 if few else t.pick([1, -1])
    addrs = [BASE + 4 * i for i in range(n)][::order]
    word = CODE['add r0,r0,r1']
    lists = [[(word + 0x100 * (a & 0xf)) ^ k for k in range(m)] for a in addrs] if not few else [[word] * (m - 1) + [word + 1]]
    with scratch():
        write(t, lists, [place] * n, addrs, few or t.bool())
        original, got = SolutionReader().read('x.sol')
    t.check(list(got) == addrs and list(original) == addrs, 'addresses read')
    t.check(encodings(got) == {a: v[:place + 1] for a, v in zip(addrs, lists)}, 'candidates read of {} addresses with {} candidates', n, m)
    t.check(encodings(original) == {a: [v[place]] for a, v in zip(addrs, lists)}, 'originals read of {} addresses with {} candidates', n, m)
    t.step(n * m)
    t.state(n, m, place, order)
    t.sample(addresses=n, candidates=m, original=place)


def discarded(t):
    """Candidates that a recovery marked as impossible are kept in the file"""
    from semantic_codec.solution.solution_io import SolutionWriter, SolutionReader
    n = t.int(1, 2)
    words = [CODE['nop'], 0xffffffff, CODE['bx lr']]
    lists = [t.arrangement(words, t.int(1, 3)) for _ in range(n)]
    program = {BASE + 4 * i: [inst(e, BASE + 4 * i) for e in v] for i, v in enumerate(lists)}
    marks = []
    for v in program.values():
        for x in v:
            marks.append(t.bool())
            x.ignore = marks[-1]
            x.scores_by_rule = {'pa': 0.0}
    with scratch():
        SolutionWriter().write_binary('x.sol', [inst(v[-1], BASE + 4 * i) for i, v in enumerate(lists)], program)
        original, got = SolutionReader().read('x.sol')
    t.equal(encodings(got), {BASE + 4 * i: list(v) for i, v in enumerate(lists)}, 'candidates read, marked %s' % marks)
    t.equal(encodings(original), {BASE + 4 * i: [v[-1]] for i, v in enumerate(lists)}, 'originals read')
    t.equal([x.ignore for v in program.values() for x in v if x.encoding != 0xffffffff],
            [k for k, e in zip(marks, [e for v in lists for e in v]) if e != 0xffffffff], 'marks')
    t.step(2)
    t.state(tuple(map(tuple, lists)), tuple(marks))
    t.sample(candidates=[[hex(e) for e in v] for v in lists], marks=marks)


def part(t):
    """A part of the program: the originals may have more addresses"""
    from semantic_codec.solution.solution_io import SolutionWriter, SolutionReader
    n = t.int(1, 5)
    addrs = [BASE + 4 * i for i in range(n)]
    chosen = t.subset(addrs)
    backwards, as_list, size = t.bool(), t.bool(), t.int(1, 3)
    words = {a: [CODE['nop'] ^ (k + i) << 12 for k in range(size)] for i, a in enumerate(addrs)}
    program = {a: [inst(e, a) for e in words[a]] for a in (list(chosen)[::-1] if backwards else chosen)}
    original = [inst(words[a][-1], a) for a in addrs]
    with scratch():
        SolutionWriter().write_binary('x.sol', original if as_list else {x.address: [x] for x in original}, program)
        t.equal(__import__('os').path.getsize('x.sol'), 12 + len(chosen) * (8 + 4 * size), 'size of the file of %d addresses' % len(chosen))
        got_original, got = SolutionReader().read('x.sol')
    t.equal(list(got), list(program), 'addresses read, %d of %d written' % (len(chosen), n))
    t.equal(encodings(got), {a: words[a] for a in chosen}, 'candidates read')
    t.equal(encodings(got_original), {a: words[a][-1:] for a in chosen}, 'originals read')
    t.step(2)
    t.state(n, tuple(chosen), backwards, size)
    t.sample(addresses=n, written=len(chosen))


def unusual(t):
    """Words that compilers seldom write, and any single bit"""
    from semantic_codec.solution.solution_io import SolutionReader
    pool = UNUSUAL + [1 << k for k in range(32)] + [0xffffffff ^ 1 << k for k in range(32)]
    e = t.pick(pool)
    v = [x for x in (0xe1a00000, 0, 0xffffffff) if x != e]
    p = t.int(0, len(v))
    v.insert(p, e)
    with scratch():
        write(t, [v, [e]], [p, 0], [BASE, BASE + 4], t.bool())
        original, got = SolutionReader().read('x.sol')
    t.equal(encodings(got), {BASE: v[:p + 1], BASE + 4: [e]}, 'candidates read')
    t.equal(encodings(original), {BASE: [e], BASE + 4: [e]}, 'originals read')
    t.step(2)
    t.state(e, p)
    t.sample(word=hex(e), place=p)


def refused(t):
    """A program that lost an original cannot be written: it must be refused, and what is left is not a solution file"""
    from semantic_codec.solution.solution_io import SolutionWriter, SolutionReader
    n = t.int(1, 3)
    bad = t.int(0, n - 1)
    empty = t.bool()
    addrs = [BASE + 4 * i for i in range(n)]
    program = {a: [inst('nop', a)] for a in addrs}
    program[addrs[bad]] = [] if empty else [inst('bx lr', addrs[bad])] * t.int(1, 2)
    with scratch():
        try:
            SolutionWriter().write_binary('x.sol', [inst('nop', a) for a in addrs], program)
        except RuntimeError:
            pass
        else:
            t.check(False, 'a program without one of its originals was written')
        try:
            SolutionReader().read('x.sol')
        except Exception:
            pass
        else:
            t.check(False, 'the file left by a refused write is accepted as a solution')
    t.step(2)
    t.state(n, bad, empty)
    t.sample(addresses=n, lost=bad)


HARNESSES = [Harness('round-trip', body, '0..3 addresses (0, the last ones and unaligned ones included) x every list of 1..3 (several addresses: 1..2) of 7 '
                     '(2 addresses: 4, 3: 2; thorough 6, 4) encodings, with the same text and with one bit of difference too, x any of them the original x program given as list or dictionary x stale longer file'),
             Harness('large', large, '1..300 addresses x 1..1030 candidates (thorough 70000 of one, 70000 addresses) x original at 5 places x '
                     'two orders x program given as list or dictionary; 65537 candidates', cpu_limit=120),
             Harness('discarded', discarded, '1..2 addresses, every order of 1..3 words, any of them marked as impossible'),
             Harness('part', part, 'any part of a program of 1..5 addresses with 1..3 candidates, in both orders'),
             Harness('unusual', unusual, '22 unusual words, any single bit set or clear, at any of 3..4 places'),
             Harness('refused', refused, 'programs that lost an original')]
