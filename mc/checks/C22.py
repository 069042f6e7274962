"""Constrained enumeration keeps the true instruction and numbers it."""
import math
from collections import Counter
from mc.core import Harness
from mc.programs import CODE, UNUSUAL, inst, BASE, encodings
from mc.recovering import originals, build

A = ['add r0,r0,r1', 'cmp r1,#0', 'moveq r0,#1', 'ldr r0,[r1]', 'push {r4,lr}', 'bne -8', 'undefined']


def replay(program, names):
    """The candidates left at each address.  The address with the fewest candidates is decided first; what its true instruction uses is no longer
    available to the others, and a candidate that needs more than there is goes away, unless it is the last of its address."""
    true = {a: [c for c in v if c.encoding == word(x)][:1] for (a, v), x in zip(program.items(), names)}
    true = {a: v[0] if v else None for a, v in true.items()}
    conditions, opcodes, storages = Counter(), Counter(), Counter()
    for x in map(inst, names, program):
        if not x.ignore:
            conditions[x.conditional_field] += 1
            opcodes[x.opcode_field] += 1
            storages.update(x.storages_used())
    left = {a: list(v) for a, v in program.items()}
    order = list(program)
    while order:
        order.sort(key=lambda a: len(left[a]))
        a = order.pop(0)
        c = true[a]
        if c is None or c.ignore:
            continue
        conditions[c.conditional_field] -= 1
        opcodes[c.opcode_field] -= 1
        storages.subtract(c.storages_used())
        for b in order:
            left[b] = [x for k, x in enumerate(left[b]) if k == len(left[b]) - 1 or not x.ignore and conditions[x.conditional_field] > 0 and
                       opcodes[x.opcode_field] > 0 and all(storages[r] > 0 for r in x.registers_used())]
    return {a: [c.encoding for c in v] for a, v in left.items()}


def word(x):
    return CODE[x] if isinstance(x, str) else x


def enumerate_solution(t, names, lists):
    from semantic_codec.solution.solution_builders import ForwardConstraintSolutionEnumerator
    program = build(lists)
    before = encodings(program)
    left = replay(program, names)
    b = ForwardConstraintSolutionEnumerator(program, [inst(x, BASE + 4 * i) for i, x in enumerate(names)])
    b.build()
    index = 1
    for i, (a, v) in enumerate(program.items()):
        e = word(names[i])
        got = [c.encoding for c in v]
        rest = list(before[a])
        for x in got:
            t.check(x in rest, 'address {} got the candidate {:x}', i, x)
            rest = rest[rest.index(x) + 1:]
        if names[i] == 'undefined':
            continue
        t.check(e in got, 'program {} candidates {}: the true instruction of address {} was removed', names, lists, i)
        index *= got.index(e) + 1
    t.equal(list(program), list(before), 'addresses')
    t.equal(encodings(program), left, 'candidates of the program %s left from %s' % (names, lists))
    t.equal(b.solution, index, 'number of the solution of program %s candidates %s (left %s)' % (names, lists, [len(v) for v in program.values()]))
    t.check(abs(b.solution_size - (math.log(index, 2) if index > 1 else 0)) < 1e-9, 'size {} of solution {}', b.solution_size, index)
    t.step(1)
    t.state(tuple(tuple(v) for v in encodings(program).values()))
    t.sample(program=names, candidates=lists, left=[len(v) for v in program.values()], solution=index)


def body(t):
    big = t.tier == 'thorough'
    n = t.int(1, 3)
    alphabet = A if n < 2 or big and n < 3 else A[:3] + A[4:] if n < 3 else A[:4] + (A[6:] if big else [])
    names = originals(t, [a for a in alphabet if a != 'undefined'], n)
    lists = []
    for x in names:
        wrong = t.subset([a for a in alphabet if a != x], 2 if n < 3 else 1)
        at = t.int(0, len(wrong)) if big or n < 2 else len(wrong) * t.choose(2) if wrong else 0
        lists.append(wrong[:at] + [x] + wrong[at:])
    enumerate_solution(t, names, lists)


def four(t):
    """Different candidate counts, so that the order of the decisions matters"""
    alphabet = ['add r0,r0,r1', 'cmp r1,#0', 'moveq r0,#1']
    names = originals(t, alphabet, 4)
    lists = []
    for x in names:
        wrong = [a for a in alphabet if a != x][:t.int(0, 2)]
        lists.append(wrong + [x] if t.tier == 'quick' or t.bool() else [x] + wrong)
    enumerate_solution(t, names, lists)


def same_text(t):
    """Different words with the same text, and the word 0"""
    alphabet = ['cmp r1,#0', 'cmp r1,#0 *', 'add r0,r0,r1', 'zero']
    names = originals(t, alphabet, t.int(1, 2))
    lists = []
    for x in names:
        wrong = t.subset([a for a in alphabet if a != x], 2)
        at = t.int(0, len(wrong))
        lists.append(wrong[:at] + [x] + wrong[at:])
    enumerate_solution(t, names, lists)


def large(t):
    """Solutions whose number no float holds"""
    n = t.pick([8, 12, 33, 64] if t.tier == 'quick' else [8, 16, 17, 32, 33, 63, 64, 65, 128, 200])
    first = t.int(0, 5)
    more = t.int(0, 5)
    at = t.pick([0, 1, 2])
    names = [A[(first + i * i) % 6] for i in range(n)]
    lists = []
    for i, x in enumerate(names):
        wrong = [a for a in A if a != x][:(i + more) % 6]
        k = min(len(wrong), [0, len(wrong) // 2, len(wrong)][at])
        lists.append(wrong[:k] + [x] + wrong[k:])
    enumerate_solution(t, names, lists)


def many_candidates(t):
    """More candidates than a few, the true one anywhere"""
    n = t.int(1, 3)
    names = ['mov r0,#1', 'add r0,r0,r1', 'ldr r0,[r1]'][:n]
    names = names[::-1] if t.bool() else names
    lists = []
    for i, x in enumerate(names):
        size = t.pick([1, 2, 17, 33] + ([16, 65] if t.tier == 'thorough' else []))
        wrong = [word(x) ^ k << 12 if k < 16 else word(x) ^ k for k in range(1, size)]
        at = t.pick(sorted({0, len(wrong) // 2, len(wrong)}))
        lists.append(wrong[:at] + [word(x)] + wrong[at:])
    enumerate_solution(t, [word(x) for x in names], lists)


def data_words(t):
    names = t.arrangement(['undefined', 'add r0,r0,r1', 'cmp r1,#0'], t.int(1, 3))
    lists = [[x] + (['moveq r0,#1'] if t.bool() else []) for x in names]
    enumerate_solution(t, names, lists)


def unusual(t):
    """Instructions of the coprocessors and of the system"""
    n = t.int(1, 2)
    pool = UNUSUAL + ['add r0,r0,r1', 'push {r4,lr}']
    names = [t.pick(pool if k == 0 else ['add r0,r0,r1', 'undefined', UNUSUAL[5]]) for k in range(n)]
    lists = []
    for x in names:
        wrong = [y for y in t.pick([[], UNUSUAL[5:9], [UNUSUAL[0], UNUSUAL[14]], ['bne -8', 'undefined', UNUSUAL[1]]]) if y != x]
        at = t.pick(sorted({0, len(wrong)}))
        lists.append(wrong[:at] + [x] + wrong[at:])
    enumerate_solution(t, names, lists)


def runs_out(t):
    """Words that share the operation, the condition or the registers, so that one of them runs out and the others do not"""
    kind = t.choose(3)
    if kind == 0:
        alphabet = ['mov r0,#1', 'moveq r0,#1', 'movne r0,#1', 'mov r1,#1', 'add r0,r0,r1', 'addne r0,r0,r1']
        n = t.int(2, 3)
        if n == 3:
            alphabet = alphabet[:2] + alphabet[4:]
    elif kind == 1:
        # a branch that names no register, and others that do
        alphabet = [0xfa000000, 0xe12fff33, 0xe12fff13, 0xeb000000]
        n = 2
    else:
        # registers of the floating point unit
        alphabet = [0xee300b00, 0xee311b01, 0xed900b00, 0xed901b00]
        n = 2
    names = originals(t, alphabet, n)
    lists = []
    for x in names:
        wrong = t.subset([a for a in alphabet if a != x], 2 if t.tier == 'thorough' or n == 2 else 1)
        lists.append(wrong + [x] if t.bool() else [x] + wrong)
    enumerate_solution(t, names, lists)


HARNESSES = [Harness('programs', body, 'every program of 1..2 instructions over 6 (two: 5, thorough 6) x every at most 2 wrong candidates out of 6 (5, 6), and of 3 '
                     'over 4 x at most one, the original first or last (1 address, thorough: any place)'),
             Harness('four-addresses', four, '4 addresses over 3 instructions x 1..3 candidates each'),
             Harness('same-text', same_text, '1..2 addresses over 4 words, two of them with the same text and one 0 x at most 2 wrong candidates x original at any place'),
             Harness('large', large, 'programs of 8..64 (thorough 200) instructions with up to 6 candidates each', cpu_limit=100),
             Harness('many-candidates', many_candidates, '1..3 addresses, each with 1, 2, 17 or 33 (thorough 16, 65) candidates, the original at 3 places'),
             Harness('data-words', data_words, 'true words that do not decode'),
             Harness('runs-out', runs_out, '2..3 addresses over 6 (3: 4) words, or 2 over 4 branches or 4 words of floating point, that share some of operation, condition and registers x at most 2 (3: 1, thorough 2) wrong candidates'),
             Harness('unusual', unusual, '1..2 coprocessor, vector and system instructions with 4 sets of wrong candidates')]
