"""Replacing a field of an instruction"""
from mc.core import Harness
from mc.stub_darm import install

FIELDS = {'modify_cond': (28, 4), 'modify_opcode': (21, 4), 'modify_rn': (16, 4), 'modify_rd': (12, 4), 'modify_rs': (8, 4), 'modify_rm': (0, 4)}
WORDS = [0, 0xffffffff, 0xaaaaaaaa, 0x55555555, 0xe59f502c, 0xe92d4010, 0x000209b4, 0x04000000, 0xf5ffffff]


def replaced(word, at, width, value):
    mask = (1 << width) - 1 << at
    return word & ~mask & 0xffffffff | value << at & mask


def fields(t):
    install()
    from semantic_codec.architecture.instruction_modifier import InstructionModifier
    m = InstructionModifier()
    name = t.pick(sorted(FIELDS))
    at, width = FIELDS[name]
    # what does not fit in the field is cut
    value = t.pick(list(range(32)) + [255, 0x100, 0xfffffff0, 0xffffffff])
    for w in WORDS + [1 << k for k in range(32)] + [0xffffffff ^ (1 << k) for k in range(32)]:
        got = getattr(m, name)(w, value)
        t.check(got == replaced(w, at, width, value), '{}({:#010x}, {}) gives {:#010x}, expected {:#010x}', name, w, value, got,
                replaced(w, at, width, value))
    t.step(len(WORDS) + 64)
    t.state(name, value)
    t.sample(field=name, value=value)


def two_fields(t):
    """Any two fields, one after the other"""
    install()
    from semantic_codec.architecture.instruction_modifier import InstructionModifier
    m = InstructionModifier()
    a, b = t.arrangement(sorted(FIELDS), 2)
    v, w = t.pick([0, 5, 10, 15]), t.pick([0, 5, 10, 15])
    for x in WORDS:
        got = getattr(m, b)(getattr(m, a)(x, v), w)
        t.equal(got, replaced(replaced(x, *FIELDS[a], v), *FIELDS[b], w), '%s and %s of %#x' % (a, b, x))
    t.step(len(WORDS))
    t.state(a, b, v, w)
    t.sample(fields=[a, b], values=[v, w])


def immediate(t):
    """12 bits in loads and stores with an immediate offset, 8 bits in the others"""
    install()
    from semantic_codec.architecture.instruction_modifier import InstructionModifier
    m = InstructionModifier()
    kind = t.int(0, 7)
    rest = t.pick([0, 0xffffffff, 0xa5a5a5a5])
    word = rest & ~0x0e000000 & 0xffffffff | kind << 25
    width = 12 if kind == 2 else 8
    block = t.int(0, 15 if kind == 2 else 0)
    for v in range(block * 256, block * 256 + 256):
        got = m.modify_immediate(word, v)
        t.check(got == replaced(word, 0, width, v), 'immediate {:#x} of {:#010x} gives {:#010x}', v, word, got)
    t.step(256)
    t.state(kind, rest, block)
    t.sample(word=hex(word), width=width)


def conditions(t):
    """The width of the immediate depends on no other bit"""
    install()
    from semantic_codec.architecture.instruction_modifier import InstructionModifier
    m = InstructionModifier()
    cond, kind = t.int(0, 14), t.int(0, 7)
    for high in range(32):
        for rest in (0, 0xfffff, 0xa5a5a):
            word = cond << 28 | kind << 25 | high << 20 | rest
            for v in (0, 1, 0x5a, 0xff) + ((0x100, 0xa5a, 0xfff) if kind == 2 else ()):
                got = m.modify_immediate(word, v)
                t.check(got == replaced(word, 0, 12 if kind == 2 else 8, v), 'immediate {:#x} of {:#010x} gives {:#010x}', v, word, got)
                t.step()
    t.state(cond, kind)
    t.sample(condition=cond, kind=kind)


HARNESSES = [Harness('fields', fields, '6 fields x 36 values, wider than the field too, x 73 words (each bit alone set, each alone clear, mixed)'),
             Harness('two-fields', two_fields, 'every two fields in any order x 16 values x 9 words'),
             Harness('immediate', immediate, 'all 4096 immediates of loads and stores, all 256 of the others, 8 kinds of instruction x 3 words'),
             Harness('conditions', conditions, '15 conditions x 8 kinds of instruction x 32 operations x 3 words x 4 or 7 immediates')]
