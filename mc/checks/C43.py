"""Frequency of the parts of the instructions"""
from mc.core import Harness
from mc.programs import CODE, inst, BASE
from mc.stubs import Stub
from mc.stub_darm import install

A = ['add r0,r0,r1', 'zero', 'push {r4,lr}', 'bne -8', 'str r0,[r1]', 'bx lr', 'cmp r1,#0', 'b +8']


def compare(t, program, what, used=None):
    from semantic_codec.compressor.huffman import InstructionPartFrequencyCounter
    c = InstructionPartFrequencyCounter()
    if t.bool() if used is None else used:
        c.count([inst('ldr r2,[r0]', 0), inst('nop', 4)])       # what was counted before is forgotten
    c.count(program)
    for freq, where, field, name in ((c.reg_frequency, c.reg_with, lambda x: x.registers_used(), 'registers'),
                                     (c.opcode_frequency, c.opcode_with, lambda x: [x.opcode_field], 'opcodes'),
                                     (c.cond_frequency, c.cond_with, lambda x: [x.conditional_field], 'conditions')):
        want, owners = {}, {}
        for x in program:
            for f in field(x):
                want[f] = want.get(f, 0) + 1
                if not any(y is x for y in owners.setdefault(f, [])):
                    owners[f].append(x)
        t.equal(dict(freq), want, '%s of %s' % (name, what))
        t.equal({k: [id(x) for x in v] for k, v in where.items()}, {k: [id(x) for x in v] for k, v in owners.items()},
                'instructions with the %s of %s' % (name, what))
    t.step(1)
    t.state(str(what))
    t.sample(program=str(what)[:200])


def real(t):
    install()
    big = t.tier == 'thorough'
    n = t.int(0, 5 if big else 4)
    names = [t.pick(A if n < 5 else A[:5]) for _ in range(n)]
    compare(t, [inst(x, BASE + 4 * i) for i, x in enumerate(names)], names)


def repeated(t):
    """An instruction that uses a register several times"""
    install()
    used = [t.seq([0, 1, 2], 0, 3) for _ in range(t.int(1, 2))]
    program = [Stub(i, BASE + 4 * i, used=u, cond=i % 2, opcode=3) for i, u in enumerate(used)]
    compare(t, program, used)


def again(t):
    """A program that lists some of its instructions several times"""
    install()
    size = t.int(1, 3)
    pool = [Stub(i, BASE + 4 * i, used=t.subset([0, 1, 2]), cond=i % 2, opcode=i // 2) for i in range(size)]
    order = t.seq(range(size), 0, 5 if t.tier == 'thorough' else 4)
    compare(t, [pool[i] for i in order], ([x.storages_used() for x in pool], order))


def examples(t):
    from mc import real
    install()
    for part in real.parts(t, (1, 2, 3, 5, 8, 13) if t.tier == 'quick' else range(1, 25)):
        compare(t, [inst(e, a) for a, e in part if not real.undefined(e)], real.some(part), False)


HARNESSES = [Harness('programs', real, 'every program of 0..4 (thorough 5) instructions over 8 (5), counter new or reused'),
             Harness('repeated', repeated, '1..2 instructions that use any 0..3 of 3 registers, also repeated'),
             Harness('again', again, 'every sequence of 0..4 (thorough 5) of 1..3 instructions that use any of 3 registers'),
             Harness('examples', examples, 'the 8 programs of the repository, and every run of 1, 2, 3, 5, 8 or 13 (thorough 1..24) of their words')]
