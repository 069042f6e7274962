"""Small ARM programs for the harnesses, as encodings"""

BASE = 0x10000

# name -> encoding; all of them decode
CODE = {
    'mov r0,#1': 0xe3a00001,
    'mov r1,#1': 0xe3a01001,
    'add r0,r0,r1': 0xe0800001,
    'add r1,r0,r1': 0xe0801001,
    'sub r1,r1,#1': 0xe2411001,
    'subs r1,r1,#1': 0xe2511001,
    'cmp r1,#0': 0xe3510000,
    'cmp r1,#0 *': 0xe3511000,        # the same text as the one before
    'moveq r0,#1': 0x03a00001,
    'movne r0,#1': 0x13a00001,
    'addne r0,r0,r1': 0x10800001,
    'ldr r0,[r1]': 0xe5910000,
    'str r0,[r1]': 0xe5810000,
    'ldr r2,[r0]': 0xe5902000,
    'str r2,[r0]': 0xe5802000,
    'push {r4,lr}': 0xe92d4010,
    'pop {r4,pc}': 0xe8bd8010,
    'pop {r4,lr}': 0xe8bd4010,
    'b +8': 0xea000000,
    'bne -8': 0x1afffffc,
    'beq +8': 0x0a000000,
    'bl -8': 0xebfffffc,
    'bx lr': 0xe12fff1e,
    'nop': 0xe1a00000,
    'add r2,r3,r4': 0xe0832004,
    'zero': 0,                        # andeq r0,r0,r0
    'undefined': 0xffffffff,
}

# what a lost packet may turn an instruction into, and compilers seldom write
UNUSUAL = [0xe8bdffff,     # pop of all the registers
           0xe92dffff,     # push of all the registers
           0xe89dffff,     # ldm sp, all the registers
           0xe8fddfff,     # ldm sp!, from another mode
           0xe88dffff,     # stm sp, all the registers
           0xee300b00,     # vadd.f64 d0, d0, d0
           0xf2000800,     # vadd.i8 d0, d0, d0
           0xed900b00,     # vldr d0, [r0]
           0xecbd8b10,     # vpop
           0xef000001,     # svc
           0xe1c000d0,     # ldrd
           0xe1c000f0,     # strd
           0xe1900f9f,     # ldrex
           0xe1800f91,     # strex
           0xee070f9a,     # mcr
           0xe129f000,     # msr
           0xf57ff05f,     # dmb
           0xe0871392,     # umull
           0xe320f000,     # nop without operands
           0xf5d0f000,     # pld
           0xe12fff7e,     # bkpt
           0xe1a0f00e]     # mov pc, lr


def inst(encoding, addr):
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    if isinstance(encoding, str):
        encoding = CODE[encoding]
    return CAPSInstruction(encoding, addr)


def listing(encodings, base=BASE, step=4):
    return [inst(e, base + step * i) for i, e in enumerate(encodings)]


def encodings(program):
    return {a: [x.encoding for x in v] for a, v in program.items()}


def candidates(lists, addrs):
    return {a: [inst(e, a) for e in v] for a, v in zip(addrs, lists)}
