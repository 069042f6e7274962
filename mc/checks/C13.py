"""Recovery never throws the true instruction away, only removes candidates, and ends."""
from mc import real
from mc.core import Harness
from mc.programs import CODE, inst, BASE, encodings
from mc.recovering import originals, corrupted, one_function, collect, build


def recover(t, names, lists, functions, undecodable=False, addrs=None):
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    from recover_program import remove_bad_candidates_at_addr
    collector = collect(names, addrs)
    program = build(lists, addrs)
    before = encodings(program)
    start = {a: list(v) for a, v in before.items()}
    total = sum(len(v) for v in before.values())
    passes, lost = 0, False
    while True:
        passes += 1
        t.check(passes <= total + 1, 'the recovery is not stable after {} passes over {} candidates', passes - 1, total)
        ProbabilisticRecuperator(collector, program, functions=functions).recover()
        removed = 0
        for v in program.values():
            removed += remove_bad_candidates_at_addr(v)
        now = encodings(program)
        t.equal(list(now), list(before), 'addresses')
        gone = 0
        for i, (a, v) in enumerate(now.items()):
            rest = list(before[a])
            for e in v:
                t.check(e in rest, 'candidate {:x} of address {} was not there before', e, i)
                rest.remove(e)
            gone += len(rest)
            if CODE.get(names[i], names[i]) not in v:
                if undecodable and (names[i] == 'undefined' if isinstance(names[i], str) else real.undefined(names[i])):
                    lost = True
                    continue
                t.check(False, 'program {}, candidates {}: the true instruction {} of address {} was removed in pass {}', names,
                        lists, names[i], i, passes)
        t.check(gone == removed, '{} candidates were removed, {} reported', gone, removed)
        before = now
        t.step(1)
        if not removed:
            break
    t.state(tuple(tuple(v) for v in now.values()))
    t.sample(program=names, candidates=[len(v) for v in start.values()], left=[len(v) for v in now.values()], passes=passes)
    if lost:
        t.finding('undecodable-original', 'the true word of an address is data that does not decode: all its candidates are removed')


A = ['add r0,r0,r1', 'cmp r1,#0', 'moveq r0,#1', 'push {r4,lr}', 'pop {r4,pc}', 'bne -8', 'ldr r0,[r1]', 'str r0,[r1]', 'bx lr']


def pairs(t):
    """Two addresses, up to two wrong candidates at each"""
    big = t.tier == 'thorough'
    alphabet = A if big else A[:6]
    names = originals(t, alphabet, 2)
    lists = corrupted(t, names, alphabet + ['undefined'] if big else alphabet, 2)
    recover(t, names, lists, one_function(2))


def triples(t):
    """Three addresses, at most one wrong candidate at each"""
    big = t.tier == 'thorough'
    alphabet = ['push {r4,lr}', 'add r0,r0,r1', 'pop {r4,pc}', 'cmp r1,#0', 'bne -8'] + (['ldr r0,[r1]'] if big else [])
    names = originals(t, alphabet, 3)
    lists = corrupted(t, names, alphabet + ['undefined'] if big else alphabet, 1)
    recover(t, names, lists, one_function(3))


def two_functions(t):
    """Calls between functions, a push and a pop in each"""
    alphabet = ['push {r4,lr}', 'pop {r4,pc}', 'bl -8', 'b +8'] + (['add r0,r0,r1'] if t.tier == 'thorough' else [])
    names = originals(t, alphabet, 4)
    wrong_at = t.subset(range(4), 2 if t.tier == 'thorough' else 1)
    last = t.bool()
    lists = []
    for i, x in enumerate(names):
        w = [t.pick([a for a in alphabet + ['undefined'] if a != x])] if i in wrong_at else []
        lists.append(w + [x] if last else [x] + w)
    recover(t, names, lists, {BASE: (BASE, BASE + 4), BASE + 8: (BASE + 8, BASE + 12)})


def data_words(t):
    """Data among the instructions: the rest of the program is recovered all the same"""
    big = t.tier == 'thorough'
    n = t.int(2, 4 if big else 3)
    alphabet = ['push {r4,lr}', 'add r0,r0,r1', 'pop {r4,pc}', 'undefined'] + (['bne -8'] if big and n < 4 else [])
    names = originals(t, alphabet, n)
    if 'undefined' not in names:
        t.prune()
    lists = corrupted(t, names, alphabet + ['mov r0,#1'] if n < 4 else alphabet[:3], 1)
    cut = t.int(1, n) if big else t.pick([1, n])
    functions = {BASE: (BASE, BASE + 4 * (cut - 1))}
    if cut < n:
        functions[BASE + 4 * cut] = (BASE + 4 * cut, BASE + 4 * (n - 1))
    recover(t, names, lists, functions, undecodable=True)


def gaps(t):
    """Addresses jump inside of a function, between functions or where the program begins"""
    big = t.tier == 'thorough'
    alphabet = ['push {r4,lr}', 'add r0,r0,r1', 'pop {r4,pc}', 'bne -8', 'bl -8']
    n = 3
    names = originals(t, alphabet if big else alphabet[:4], n)
    lists = corrupted(t, names, alphabet[:4] if big else alphabet[:3], 1)
    base, first, second = t.pick([(0, 8, 4), (BASE, 4, 0x100)] + ([(BASE, 8, 8), (0, 0x10000, 4)] if big else []))
    addrs = [base, base + first, base + first + second]
    cut = t.int(1, n)
    functions = {base: (base, addrs[cut - 1])}
    if cut < n:
        functions[addrs[cut]] = (addrs[cut], addrs[-1])
    recover(t, names, lists, functions, addrs=addrs)


def bit_errors(t):
    """Real corruption: every pair of bits of one instruction of a small function"""
    from semantic_codec.corruption.corruption import corrupt_all_bits_tuples
    prog = ['push {r4,lr}', 'cmp r1,#0', 'addne r0,r0,r1', 'str r0,[r1]', 'pop {r4,pc}']
    i = t.int(0, 4)
    a = t.int(0, 30)
    b = t.int(a, 30)
    j = t.pick([None, (i + 1) % 5])
    program = {BASE + 4 * k: [inst(x, BASE + 4 * k)] for k, x in enumerate(prog)}
    bits = [(a, a + 1)] + ([(b, b + 1)] if b != a else [])
    lists = []
    for k, x in enumerate(prog):
        lists.append([e for e in corrupt_all_bits_tuples(bits, CODE[x])] if k in (i, j) else [x])
    recover(t, prog, lists, one_function(5))


def examples(t):
    """The functions of the programs of the repository, the same two bits of every word lost as a packet takes them, or of one word"""
    from semantic_codec.corruption.corruption import corrupt_all_bits_tuples
    big = t.tier == 'thorough'
    name = t.pick(real.PROGRAMS)
    functions = [f for f in real.functions(name) if len(f) <= (60 if big else 16)]
    if not functions:
        t.prune()
    f = functions[t.choose(len(functions))]
    cell = 2 * t.int(0, 14)         # the variants over bit 31 cannot be asked for
    at = t.pick([None] + list(range(len(f) if len(f) <= 24 else 0))) if big else None
    names, addrs = [e for _, e in f], [a for a, _ in f]
    lists = [list(corrupt_all_bits_tuples([(cell, cell + 2)], e)) if at in (None, i) else [e] for i, e in enumerate(names)]
    recover(t, names, lists, {addrs[0]: (addrs[0], addrs[-1])}, undecodable=True, addrs=addrs)


MANY = [0xe890007e, 0xe88003fe, 0xe92d5ff0, 0xe8bd9ff0]         # ldm r0,{r1-r6}, stm r0,{r1-r9}, push {r4-r12,lr}, pop {r4-r12,pc}


def wide(t):
    """Instructions that use many registers"""
    few = [CODE['add r0,r0,r1'], CODE['ldr r0,[r1]'], 0xe3a04001]
    n = t.int(2, 3)
    names = [t.pick(few[:2] + MANY if n == 3 and t.tier == 'quick' else few + MANY) for i in range(n)]
    at = t.int(-1, n - 1)
    lists = [[x] for x in names]
    if at >= 0:
        lists[at] += [t.pick([x for x in few + MANY if x != names[at]])]
    recover(t, names, lists, one_function(n))


def long(t):
    """Programs of dozens of instructions, the same kinds of them again and again"""
    from semantic_codec.corruption.corruption import corrupt_all_bits_tuples
    n = t.pick([30, 70, 130] if t.tier == 'quick' else [63, 64, 65, 66, 127, 129, 257, 300])
    kinds = t.pick([A[:2], A[:6], A])
    cell = t.pick([0, 12, 16, 20, 28, 'condition'])
    every = t.pick([1, 7])
    names = [kinds[i % len(kinds)] for i in range(n)]
    if cell == 'condition':
        # always or equal
        lists = [[x, CODE[x] ^ 0xe0000000] if i % every == 0 and CODE[x] >> 28 in (0, 14) else [x] for i, x in enumerate(names)]
    else:
        lists = [list(corrupt_all_bits_tuples([(cell, cell + 2)], CODE[x])) if i % every == 0 else [x] for i, x in enumerate(names)]
    recover(t, names, lists, one_function(n))


HARNESSES = [Harness('pairs', pairs, 'every program of 2 instructions over 6 (thorough 9) x every set of at most 2 wrong '
                     'candidates per address (thorough: undecodable ones too) x original first or last'),
             Harness('triples', triples, 'every program of 3 over 5 (6) instructions x at most one wrong candidate per address'),
             Harness('two-functions', two_functions, 'every program of two functions of 2 instructions over 4 (5), wrong candidates at '
                     'one (thorough two) addresses'),
             Harness('bit-errors', bit_errors, 'every one or two bit corruption of one or two instructions of a 5 instruction function'),
             Harness('data-words', data_words, 'every program of 2..3 (thorough 4) over 3 (4) instructions and data x at most one wrong candidate '
                     'per address x one or two functions'),
             Harness('examples', examples, 'the functions of at most 16 (thorough 60) words of the 8 programs of the repository x the same two bits of '
                     'each word lost (thorough: or of any one of up to 24 words)'),
             Harness('long', long, 'programs of 30..130 (thorough 300) instructions of 2, 6 or 9 kinds x 5 pairs of bits lost, or the condition, of each or of one in 7 words', cpu_limit=150),
             Harness('wide', wide, 'every program of 2..3 over 7 (3: 6) words, 4 of which use 6..10 registers x at most one wrong candidate'),
             Harness('gaps', gaps, 'every program of 3 over 4 (5) instructions x at most one wrong candidate per address x gaps of 0, 1, 63 '
                     'words (thorough also 65535) x one or two functions, from address 0 too')]
