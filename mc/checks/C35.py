"""Reading a program from the text of the online disassembler"""
from mc.core import Harness
from mc.common import scratch
from mc.programs import CODE

WORDS = [CODE['push {r4,lr}'], CODE['undefined'], 0x01020304, 0x000000ff]


def bytes_of(e):
    return ' '.join('%02x' % (e >> 8 * i & 0xff) for i in range(4))


def compare(t, items, tail, indent, section='text', digits=8):
    """items: ('f', address, name), ('i', address, encoding), ('', text)"""
    from semantic_codec.architecture.disassembler_readers import TextDisassembleReader
    out, want, fns = [], [], [[]]
    for x in items:
        if x[0] == 'f':
            out.append('.%s:%0*x <%s>:' % (section, digits, x[1], x[2]))
            fns.append([])
        elif x[0] == 'i':
            out.append(' ' * indent + '.%s:%0*x %s' % (section, digits, x[1], bytes_of(x[2])) + tail)
            want.append(x[1:])
            fns[-1].append(x[1:])
        else:
            out.append(x[1])
    with scratch():
        with open('p.armasm', 'w') as f:
            f.write('\n'.join(out) + '\n')
        r = TextDisassembleReader('p.armasm')
        ins, got = r.read()
        again = r.read_instructions()
    for v in (ins, again):
        t.equal([(i.address, i.encoding) for i in v], want, 'instructions of %s' % (items,))
    t.equal([[(i.address, i.encoding) for i in f.instructions] for f in got], fns, 'functions of %s' % (items,))
    t.step(len(items) + 1)
    t.state(tuple(map(str, items)), section, digits)
    t.sample(lines=out[:4])


def layout(t):
    n = t.int(0, 5 if t.tier == 'quick' else 6)
    kinds = [t.pick(['i', 'f', '']) for _ in range(n)]
    items, a = [], t.pick([0, 0x10790, 0xffffff00])
    for k in kinds:
        if k == 'f':
            items.append(('f', a, t.pick(['main', '$a', '_init']) if n < 4 else 'main'))
        elif k == 'i':
            items.append(('i', a, WORDS[len(items) % len(WORDS)]))
            a += 4
        else:
            items.append(('', t.pick(['', '; comment']) if n < 4 else ''))
    tail = t.pick(['                      push\t{r4, lr}', '  mov  r0,  r1', '', '                      bl\t0x10790 <f:g>'])
    compare(t, items, tail, t.pick([1, 27]))


def names(t):
    """Addresses of any length, any section and any name"""
    a = t.pick([0, 8, 0x8000, 0xabcdef, 0x10790, 0xfffffff0, 0x123456789])
    names = t.pick(['main', '$a', '_init', '__libc_start_main@plt', 'f0', '0', 'ABC', 'x.part.1'])
    items = [('i', a, WORDS[0])] * t.int(0, 1) + [('f', a, names), ('i', a, WORDS[0]), ('i', a + 4, WORDS[2]), ('f', a + 8, 'g'), ('i', a + 8, WORDS[3])]
    compare(t, items, '                      push\t{r4, lr}', t.pick([1, 27]), t.pick(['text', 'plt', 'init', 'my_section2']), t.pick([1, 4, 8, 16]))


def long(t):
    """Files of hundreds of lines"""
    n = t.pick([64, 257, 1000] + ([5000] if t.tier == 'thorough' else []))
    every = t.pick([3, 50, 256])
    items, a = [], t.pick([0, 0x10790, 0xfffff0])
    for i in range(n):
        if i % every == 0:
            items.append(('', ''))
            items.append(('f', a, 'f%d' % i))
        items.append(('i', a, WORDS[i % len(WORDS)] ^ i))
        a += 4
    compare(t, items, '                      push\t{r4, lr}', 27)


def encodings(t):
    """Every byte of the word goes to its place"""
    from semantic_codec.architecture.instruction import Instruction
    b = t.int(0, 255)
    values = [b << 8 * i for i in range(4)] + [b * 0x01010101, b << 24 | (255 - b) << 16 | (b ^ 0x55) << 8 | (b ^ 0x33)]
    compare(t, [('i', 4 * k, v) for k, v in enumerate(values)], '                      x', 27)
    for v in values:
        w = int.from_bytes(v.to_bytes(4, 'little'), 'big')
        t.equal(Instruction.reverse_endianess(v), w, 'endianness of %#x reversed' % v)
        t.equal(Instruction.reverse_endianess('%08x' % v), '%08x' % w, 'endianness of the text of %#x reversed' % v)
        t.equal(int(Instruction.reverse_endianess(bytes_of(v)), 16), v, 'value of the bytes of %#x' % v)
        t.equal(Instruction.reverse_endianess(Instruction.reverse_endianess(v)), v, 'endianness of %#x reversed twice' % v)


HARNESSES = [Harness('layout', layout, 'every file of 0..5 (thorough 6) lines that are instructions, function headers or neither x 3 first '
                     'addresses x 4 texts after the bytes x 2 indentations'),
             Harness('names', names, '7 addresses with at least 1, 4, 8 or 16 digits x 8 names x 4 sections x 2 indentations'),
             Harness('long', long, 'files of 64..1000 (thorough 5000) instructions x functions of 3, 50, 256 instructions x 3 first addresses'),
             Harness('encodings', encodings, 'every value of each byte of the word, and mixed ones')]
