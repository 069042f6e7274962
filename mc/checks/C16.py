"""Metadata histograms are exact."""
from mc import real
from mc.core import Harness
from mc.programs import CODE, UNUSUAL, inst, BASE

A = ['add r0,r0,r1', 'zero', 'push {r4,lr}', 'bne -8', 'str r0,[r1]', 'bx lr', 'undefined', 'cmp r1,#0', 'ldr r2,[r0]', 'nop']


def histogram(items):
    res = {}
    for x in items:
        res[x] = res.get(x, 0) + 1
    return res


def body(t):
    big = t.tier == 'thorough'
    names = t.seq(A if big else A[:8], 0, 4)
    hidden = t.choose(len(names) + 1)        # one instruction may be marked as ignored
    compare(t, [(BASE + 4 * i, CODE[x]) for i, x in enumerate(names)], hidden, names)


def compare(t, given, hidden, names):
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    program = [inst(e, a) for a, e in given]
    fresh = [inst(e, a) for a, e in given]
    if hidden:
        program[hidden - 1].ignore = True
        fresh[hidden - 1].ignore = True
    MetadataCollector().collect([inst('add r1,r0,r1', BASE)])    # collectors share nothing
    c = MetadataCollector()
    c.collect(program)
    valid = [x for x in fresh if not x.ignore]
    t.equal(dict(c.condition_count), histogram(x.conditional_field for x in valid), 'conditions of %s' % names)
    t.equal(dict(c.instruction_count), histogram(x.opcode_field for x in valid), 'opcodes of %s' % names)
    t.equal(dict(c.storage_count), histogram(s for x in valid for s in x.storages_used()), 'storages of %s' % names)
    t.equal([x.encoding for x in c.empty_spaces], sorted({x.encoding for x in valid}, reverse=True), 'distinct encodings')
    t.step(1)
    t.state(str(names), hidden)
    t.sample(program=names, ignored=hidden, opcodes=len(c.instruction_count), storages=len(c.storage_count))


def unusual(t):
    words = t.seq(UNUSUAL, 1, 2 if t.tier == 'quick' else 3)
    compare(t, [(BASE + 4 * i, x) for i, x in enumerate(words)], t.choose(len(words) + 1), [hex(x) for x in words])


def examples(t):
    for part in real.parts(t, (1, 2, 3, 5, 8, 13) if t.tier == 'quick' else range(1, 25)):
        compare(t, part, 0, real.some(part))


HARNESSES = [Harness('histograms', body, 'every program of 0..4 instructions over 8 (thorough 10), any one of them ignored'),
             Harness('unusual', unusual, 'every program of 1..2 (thorough 3) over 22 unusual instructions: all the registers, floating point, '
                     'coprocessor, unconditional, without operands; any one of them ignored'),
             Harness('examples', examples, 'the 8 programs of the repository, and every run of 1, 2, 3, 5, 8 or 13 (thorough 1..24) of their words')]
