"""The legacy recovery with several passes discards candidates without ever discarding the true instruction."""
import contextlib
import io

from mc import real
from mc.core import Harness
from mc.programs import CODE, UNUSUAL, encodings
from mc.recovering import originals, corrupted, collect, build

NOREG = 0xef000001                  # svc: uses no registers
WORDS = {'svc': NOREG, 'cmpne r1,#0': 0x13510000, 'hint': 0xe320f000, 'subs r0,r0,r1': 0xe0500001, 'mov pc,lr': 0xe1a0f00e}


def words(names):
    return [WORDS.get(x, x) for x in names]


def valid(program):
    return {a: [c for c in v if not c.ignore] for a, v in program.items()}


def recover(t, names, lists, most, addrs=None, collector_of=None):
    """most: passes of each run; the runs go on until one of them discards nothing"""
    from semantic_codec.metadata.recuperator import Recuperator
    true, lists = words(names), [words(v) for v in lists]
    collector = collect(true, addrs)
    program = build(lists, addrs)
    before = encodings(program)
    objects = {a: list(v) for a, v in program.items()}
    left = valid(program)
    runs = 0
    while True:
        runs += 1
        t.check(runs <= sum(map(len, lists)) + 1, 'the recovery is not stable after {} runs', runs - 1)
        recuperator = Recuperator(collector, program)
        recuperator.passes = most
        with contextlib.redirect_stdout(io.StringIO()):
            recuperator.recover()
        t.equal(encodings(program), before, 'candidates')
        now = valid(program)
        for i, (a, v) in enumerate(now.items()):
            t.check(all(any(c is o for o in objects[a]) for c in v), 'a candidate of address {} was replaced', i)
            back = [c for c in v if not any(c is o for o in left[a])]
            t.check(not back, 'a discarded candidate of address {} came back', i)
            e = CODE.get(true[i], true[i])
            t.check(any(c.encoding == e for c in v), 'program {}, candidates {}: the true instruction {} of address {} was discarded in run {} of {} passes',
                    names, lists, names[i], i, runs, most)
        gone = sum(map(len, left.values())) - sum(map(len, now.values()))
        left = now
        t.step(most)
        if not gone:
            break
        if most == 1:
            t.check(False, 'a single pass discarded {} candidates', gone)
    t.state(tuple(tuple(c.encoding for c in v) for v in left.values()))
    t.sample(program=names, candidates=lists, passes=most, runs=runs)


A = ['add r0,r0,r1', 'cmp r1,#0', 'moveq r0,#1', 'svc', 'cmpne r1,#0', 'bne -8', 'pop {r4,pc}', 'str r0,[r1]', 'bx lr']


def pairs(t):
    big = t.tier == 'thorough'
    alphabet = A if big else A[:6]
    names = originals(t, alphabet, 2)
    lists = corrupted(t, names, alphabet + ['undefined'] if big else alphabet, 2)
    recover(t, names, lists, t.int(1, 4 if big else 3))


def triples(t):
    big = t.tier == 'thorough'
    alphabet = A[:6] if big else ['add r0,r0,r1', 'cmp r1,#0', 'moveq r0,#1', 'svc', 'cmpne r1,#0']
    names = originals(t, alphabet, 3)
    lists = corrupted(t, names, alphabet + ['undefined'], 1)
    recover(t, names, lists, t.pick([2, 3]))


def unusual(t):
    """Instructions that use no registers, or the registers of the coprocessors, among others"""
    x = t.pick(UNUSUAL + list(WORDS))
    before, after = t.pick(['cmpne r1,#0', 'subs r0,r0,r1', 'hint', 'add r0,r0,r1']), t.pick(['moveq r0,#1', 'svc', 'mov pc,lr'])
    names = [before, x, after]
    wrong = t.subset(['add r0,r0,r1', 'undefined', 'svc', 'bx lr'] + ([0xee300b00, 'moveq r0,#1'] if t.tier == 'thorough' else []), 2)
    lists = [[before] + (['cmp r1,#0'] if t.bool() else []), wrong + [x], [after] + (['mov r0,#1'] if t.bool() else [])]
    recover(t, names, lists, t.pick([2, 3]))


def bit_errors(t):
    """Real corruption: every pair of bits of one or two instructions of a small function"""
    from semantic_codec.corruption.corruption import corrupt_all_bits_tuples
    prog = ['push {r4,lr}', 'cmp r1,#0', 'addne r0,r0,r1', 'svc', 'pop {r4,pc}']
    i = t.int(0, 4)
    a = t.int(0, 30)
    b = t.int(a, 30)
    j = t.pick([None, (i + 1) % 5])
    bits = [(a, a + 1)] + ([(b, b + 1)] if b != a else [])
    true = words(prog)
    lists = [list(corrupt_all_bits_tuples(bits, CODE.get(x, x))) if k in (i, j) else [x] for k, x in enumerate(true)]
    recover(t, prog, lists, 2)


def examples(t):
    """The functions of the programs of the repository, the same two bits of every word lost"""
    from semantic_codec.corruption.corruption import corrupt_all_bits_tuples
    name = t.pick(real.PROGRAMS)
    functions = [f for f in real.functions(name) if len(f) <= (40 if t.tier == 'thorough' else 12) and not any(real.undefined(e) for _, e in f)]
    if not functions:
        t.prune()
    f = functions[t.choose(len(functions))]
    cell = 2 * t.int(0, 14)
    names, addrs = [e for _, e in f], [a for a, _ in f]
    recover(t, names, [list(corrupt_all_bits_tuples([(cell, cell + 2)], e)) for e in names], 2, addrs)


HARNESSES = [Harness('pairs', pairs, 'every program of 2 instructions over 6 (thorough 9) x every set of at most 2 wrong candidates per address x '
                     'original first or last x runs of 1..3 (4) passes'),
             Harness('triples', triples, 'every program of 3 over 5 (6) instructions x at most one wrong candidate per address x runs of 2, 3 passes'),
             Harness('unusual', unusual, 'every one of 27 unusual instructions, between 4 before and 3 after it, with any 2 of 4 (6) wrong candidates'),
             Harness('bit-errors', bit_errors, 'every one or two bit corruption of one or two instructions of a 5 instruction function'),
             Harness('examples', examples, 'the functions of at most 12 (thorough 40) words of the 8 programs of the repository x the same two bits of '
                     'each word lost')]
