"""Metadata of a corrupted program: at how many addresses a field value is possible."""
from mc.core import Harness
from mc.programs import CODE, UNUSUAL, inst, BASE, encodings

A = ['add r0,r0,r1', 'zero', 'push {r4,lr}', 'bne -8', 'str r0,[r1]', 'undefined', 'bx lr']


def body(t):
    big = t.tier == 'thorough'
    n = t.int(0, 3)
    alphabet = A if n < 3 else A[:3]
    lists = [t.seq(alphabet, 0, 3 if n < 2 else 2 if n < 3 or big else 1) for _ in range(n)]
    program = {BASE + 4 * i: [inst(x, BASE + 4 * i) for x in v] for i, v in enumerate(lists)}
    hidden = t.choose(1 + sum(len(v) for v in lists[:1]))
    if hidden:
        program[BASE][hidden - 1].ignore = True
    compare(t, program, lists, hidden)


def compare(t, program, lists, hidden, reused=None):
    from semantic_codec.metadata.metadata_collector import CorruptedProgramMetadataCollector
    c = CorruptedProgramMetadataCollector()
    if t.bool() if reused is None else reused:
        c.collect({0: [inst('nop', 0), inst('cmp r1,#0', 0)]})     # what was collected before is forgotten
    c.collect(program)
    for got, field, what in ((c.address_with_cond, lambda x: [x.conditional_field], 'conditions'),
                             (c.address_with_op, lambda x: [x.opcode_field], 'opcodes'),
                             (c.address_with_reg, lambda x: x.storages_used(), 'storages')):
        want = {}
        for v in program.values():
            for f in {f for x in v if not x.ignore for f in field(x)}:
                want[f] = want.get(f, 0) + 1
        t.equal(dict(got), want, '%s of %s' % (what, lists))
    t.step(1)
    t.state(str(lists), hidden)
    t.sample(candidates=lists, ignored=hidden)


def unusual(t):
    """Unusual instructions, and as many candidates as a lost packet may leave"""
    lists = [t.seq(UNUSUAL, 0, 2 if t.tier == 'quick' else 3), t.pick([[], [UNUSUAL[0]], ['str r0,[r1]', UNUSUAL[5]]])]
    program = {BASE + 4 * i: [inst(x, BASE + 4 * i) for x in v] for i, v in enumerate(lists)}
    compare(t, program, lists, 0)


def many(t):
    n = t.pick([63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257] + ([1023, 1024, 1025] if t.tier == 'thorough' else []))
    e = CODE[t.pick(['add r0,r0,r1', 'str r0,[r1]', 'cmp r1,#0'])]
    lists = [[e ^ k for k in range(n)], [e]]
    program = {BASE + 4 * i: [inst(x, BASE + 4 * i) for x in v] for i, v in enumerate(lists)}
    compare(t, program, '%d candidates of %x' % (n, e), 0, False)


def last_one(t):
    """The one candidate with a field of its own, anywhere among hundreds"""
    n = t.pick([2, 64, 255, 256, 257, 300, 600] + ([1023, 1024, 1025, 4097] if t.tier == 'thorough' else []))
    e = CODE['add r0,r0,r1']
    at = t.pick(sorted({0, n // 2, n - 2, n - 1}))
    v = [e ^ (k & 1) for k in range(n)]
    v[at] = CODE[t.pick(['bne -8', 'push {r4,lr}', 'ldr r0,[r1]', 'moveq r0,#1'])]
    program = {BASE + 4 * i: [inst(x, BASE + 4 * i) for x in w] for i, w in enumerate([v, [e]])}
    compare(t, program, '%d candidates, %x at %d' % (n, v[at], at), 0, False)


def examples(t):
    """Two or three bits of every word, as a lost packet leaves them"""
    from mc import real
    cell = t.pick([0, 5, 12, 16, 21, 25, 28] if t.tier == 'quick' else range(30))
    masks = [m << cell for m in range(4 if t.tier == 'quick' else 8) if not m << cell >> 32]
    for part in real.parts(t, (2, 4) if t.tier == 'quick' else (1, 2, 3, 4, 6, 8)):
        if len(part) < 20 or t.tier == 'thorough':
            lists = [[e ^ m for m in masks] for _, e in part]
            program = {a: [inst(x, a) for x in v] for (a, _), v in zip(part, lists)}
            compare(t, program, '%s, bits from %d' % (real.some(part), cell), 0, False)


HARNESSES = [Harness('candidate-metadata', body, '0..3 addresses x every list of 0..3, 0..2, 0..1 candidates over 7 (3) instructions '
                     'x one ignored or none x reused collector or not'),
             Harness('unusual', unusual, 'every list of 0..2 (3) candidates over 22 unusual instructions x 3 neighbours'),
             Harness('many', many, '63..257 (thorough 1025) candidates of one address'),
             Harness('last-one', last_one, '2..600 (thorough 4097) candidates of one address, one of which has other fields, at 4 places'),
             Harness('examples', examples, 'every run of 2 or 4 (thorough 6 lengths up to 8, and the whole) of the words of the 8 programs of the repository, the variants over the 2 (3) '
                     'bits from 7 (30) places on as candidates')]
