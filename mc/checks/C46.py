"""The storages of an instruction"""
from mc.core import Harness
from mc.programs import UNUSUAL, inst

# name -> (encoding, reads memory, writes memory, branches)
WORDS = {
    'mov r0,#1': (0xe3a00001, 0, 0, 0), 'add r0,r1,r2': (0xe0810002, 0, 0, 0), 'cmp r1,#0': (0xe3510000, 0, 0, 0),
    'mvneq r7,r8': (0x01e07008, 0, 0, 0), 'ldr r0,[r1]': (0xe5910000, 1, 0, 0), 'ldrb r3,[r2,#4]': (0xe5d23004, 1, 0, 0),
    'ldrh r3,[r2]': (0xe1d230b0, 1, 0, 0), 'ldr r2,[r0,r3]': (0xe7902003, 1, 0, 0), 'str r0,[r1]': (0xe5810000, 0, 1, 0),
    'strb r4,[r5]': (0xe5c54000, 0, 1, 0), 'strhne r4,[r5]': (0x11c540b0, 0, 1, 0), 'str pc,[r1]': (0xe581f000, 0, 1, 0),
    'b': (0xea000000, 0, 0, 1), 'bne': (0x1afffffc, 0, 0, 1), 'bl': (0xebfffffc, 0, 0, 1), 'bx lr': (0xe12fff1e, 0, 0, 1),
    'blx r3': (0xe12fff33, 0, 0, 1), 'mov pc,lr': (0xe1a0f00e, 0, 0, 1), 'ldr pc,[r1]': (0xe591f000, 1, 0, 1),
    'bx pc': (0xe12fff1f, 0, 0, 1), 'ldr pc,[pc,#8]': (0xe59ff008, 1, 0, 1), 'add r0,pc,#8': (0xe28f0008, 0, 0, 0), 'str pc,[pc]': (0xe58ff000, 0, 1, 0),
    'add pc,pc,r2': (0xe08ff002, 0, 0, 1), 'svc': (0xef000000, 0, 0, 0), 'mul r1,r2,r3': (0xe0010392, 0, 0, 0),
}
PUSHES = {'push {r4,lr}': 0xe92d4010, 'pop {r4,lr}': 0xe8bd4010}
MEMORY, NONE, PC = 16, 18, 15


def expected(name):
    """What a fresh instruction says of its registers, with the storages added"""
    if name in PUSHES:
        x = inst(PUSHES[name], 0x10000)
        return x.registers_used(), x.registers_read(), x.registers_written()
    e, reads, writes, branches = WORDS[name]
    x = inst(e, 0x10000)
    used = x.registers_used() + ([MEMORY] if reads or writes else [])
    written = x.registers_written()
    return (used or [NONE], x.registers_read() + ([MEMORY] if reads else []),
            written + ([MEMORY] if writes else []) + ([PC] if branches and PC not in written else []))


def body(t):
    big = t.tier == 'thorough'
    name = t.pick(list(WORDS) + list(PUSHES))
    e = PUSHES[name] if name in PUSHES else WORDS[name][0]
    want = expected(name)
    x = inst(e, t.pick([0x10000, 0]))
    asked = []
    registers = (inst(e, 0).registers_used(), inst(e, 0).registers_read(), inst(e, 0).registers_written())
    for _ in range(t.int(1, 5 if big else 3)):
        q = t.int(0, 5)
        asked.append(q)
        if q < 3:
            got = (x.storages_used, x.storages_read, x.storages_written)[q]()
            if name in PUSHES and q:
                got = [r for r in got if r != MEMORY]
            if name in PUSHES and q == 0:
                got = [r for r in got if r != MEMORY]
            t.check(sorted(got) == sorted(want[q]), '{}: asked {}: storages {} instead of {}', name, asked, got, want[q])
            t.check(len(set(got)) == len(got), '{}: a storage is repeated: {}', name, got)
        else:
            got = (x.registers_used, x.registers_read, x.registers_written)[q - 3]()
            t.equal(list(got), list(registers[q - 3]), '%s: registers, asked %s' % (name, asked))
        t.step()
    t.state(name, tuple(asked[-2:]))
    t.sample(instruction=name, asked=asked)


MORE = ['mov sp,r0', 'ldr sp,[r0]', 'add sp,sp,#8', 'mov lr,pc', 'ldm sp,{r0,sp}', 'str sp,[sp]', 'mov ip,sp', 'swp', 'pop {pc}', 'push {r0}']
MORE = dict(zip(MORE, [0xe1a0d000, 0xe590d000, 0xe28dd008, 0xe1a0e00f, 0xe89d2001, 0xe58dd000, 0xe1a0c00d, 0xe1000091, 0xe49df004, 0xe52d0004]))


def fresh(t):
    """Each answer is that of an instruction which was not asked anything before"""
    e = t.pick(UNUSUAL + list(MORE.values()) + list(PUSHES.values()) + [0xe92ddfff, 0xe8bd9fff, 0xe5b10004, 0xe4910004])
    questions = ('storages_used', 'storages_read', 'storages_written', 'registers_used', 'registers_read', 'registers_written')
    want = [list(getattr(inst(e, 0x10000), q)()) for q in questions]
    x = inst(e, 0x10000)
    asked = []
    for _ in range(t.int(2, 4 if t.tier == 'thorough' else 3)):
        q = t.int(0, 5)
        asked.append(questions[q])
        got = getattr(x, questions[q])()
        t.equal(list(got), want[q], '%x: asked %s' % (e, asked))
        t.step()
    t.state(e, tuple(asked[-2:]))
    t.sample(word=hex(e), asked=asked)


HARNESSES = [Harness('queries', body, 'every history of 1..3 (thorough 5) of 6 queries on 28 instructions: data, loads, stores, branches of every '
                     'kind, no registers, push and pop (whose memory access is not specified)'),
             Harness('fresh', fresh, 'every history of 2..3 (thorough 4) of 6 queries on 38 words: system, coprocessor, stack, several registers')]
