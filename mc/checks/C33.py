"""Branch targets"""
from mc.core import Harness

ADDRESSES = [0, 4, 0x10000, 0x7ffffffc, 0x80000000, 0xfffffff8, 0xfffffffc]
OFFSETS = [0, 1, 2, 3, 0x40, 0x1234, 0x7ffffe, 0x7fffff, 0x800000, 0x800001, 0xfffbff, 0xfffffc, 0xfffffd, 0xfffffe, 0xffffff]
NOT_BRANCHES = [0xe3a00001, 0xe0800001, 0xe5910000, 0xe5810000, 0xe92d4010, 0xe3510000, 0xe1a00000, 0xe58ff000, 0x03a01c01]
UNKNOWN = [0xe12fff1e, 0xe12fff33, 0xe8bd8010, 0xe49df004, 0xe59ff004, 0xe1a0f00e, 0xe28ff010, 0xe24ff008, 0xe08ff101, 0x112fff1e]


def target(address, imm24):
    return (address + 8 + 4 * (imm24 - (1 << 24) if imm24 & 0x800000 else imm24)) % (1 << 32)


def given(address, imm24, link, cond):
    return cond << 28 | (0xb if link else 0xa) << 24 | imm24


def check(t, x, want, what):
    t.equal(x.jumping_address, want, 'target of %s' % what)
    t.equal(x.jumping_address, want, 'target of %s, asked again' % what)


def branches(t):
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    address = t.pick(ADDRESSES)
    link = t.bool()
    cond = t.int(0, 14)
    offsets = OFFSETS + ([1 << k for k in range(24)] + [0xffffff ^ (1 << k) for k in range(24)] if t.tier == 'thorough' or cond in (0, 14) else [])
    for o in offsets:
        x = CAPSInstruction(given(address, o, link, cond), address)
        what = '%#x at %#x' % (x.encoding, address)
        t.check(x.is_branch, '{} is not a branch', what)
        t.check(bool(x.is_branch_with_link) == link, '{}: with link is {}', what, x.is_branch_with_link)
        check(t, x, target(address, o), what)
        t.state(x.jumping_address)
    t.step(len(offsets))
    t.sample(address=hex(address), condition=cond, link=link)


def all_offsets(t):
    """Every 12 bit half of the offset, the other half all zeros or all ones"""
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    address = t.pick([0x10000, 0xfffffffc])
    high = t.bool()
    rest = t.pick([0, 0xfff])
    block = t.int(0, 63)
    for k in range(block * 64, block * 64 + 64):
        o = (k << 12 | rest) if high else (rest << 12 | k)
        check(t, CAPSInstruction(given(address, o, False, 14), address), target(address, o), 'offset %#x at %#x' % (o, address))
        t.state(o, address)
    t.step(64)
    t.sample(address=hex(address), offsets=[block * 64, block * 64 + 63], in_high_half=high)


def generic(t):
    """The target computed from the fields alone, for the decoders that do not give it"""
    from mc.stubs import Stub
    from semantic_codec.architecture.instruction import Instruction

    class Plain(Stub):
        jumping_address = Instruction.jumping_address
    address = t.pick(ADDRESSES)
    cond = t.pick([0, 1, 14])
    link = t.bool()
    for o in OFFSETS + [1 << k for k in range(24)] + [0xffffff ^ (1 << k) for k in range(24)]:
        e = given(address, o, link, cond)
        check(t, Plain(e, address, branch=True), target(address, o), '%#x at %#x' % (e, address))
        check(t, Plain(e, address, branch=False), None, 'an instruction that is no branch')
        t.state(address, o)
    t.step(2)
    t.sample(address=hex(address))


def others(t):
    """What is no branch has no target; a target that depends on a register or the memory is not known"""
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    branch = t.bool()
    address = t.pick(ADDRESSES)
    e = t.pick(UNKNOWN if branch else NOT_BRANCHES)
    x = CAPSInstruction(e, address)
    t.check(bool(x.is_branch) == branch, '{:x} {}: branch is {}', e, x, x.is_branch)
    check(t, x, None, '%s at %#x' % (x, address))
    t.step(1)
    t.state(e, address)
    t.sample(instruction=str(x), address=hex(address))


def immediate_jump(t):
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    address = t.pick(ADDRESSES)
    rot = t.int(0, 15)
    for imm in (0, 1, 4, 0x80, 0xfc, 0xff):
        value = ((imm >> 2 * rot) | (imm << (32 - 2 * rot))) & 0xffffffff
        x = CAPSInstruction(0xe3a0f000 | rot << 8 | imm, address)
        check(t, x, value, str(x))
        t.state(value)
    t.step(6)
    t.sample(address=hex(address), rotation=2 * rot)


def lookup(t):
    """The instruction a branch goes to"""
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    base = t.pick([0, 0x10000, 0x7ffffff8, 0xfffffff0])
    n = t.int(1, 4)
    at = t.int(0, n - 1)
    to = t.int(-2, n + 1)
    missing = t.pick([None] + [k for k in range(n) if k != at])
    program = []
    for k in range(n):
        a = (base + 4 * k) & 0xffffffff
        e = given(a, (to - at - 2) & 0xffffff, t.tier == 'thorough' and n > 2, 14) if k == at else 0xe3a00001
        program.append(CAPSInstruction(e, a))
    b = program[at]
    listed = [x for k, x in enumerate(program) if k != missing]
    got = b.branch_to(listed)
    want = program[to] if 0 <= to < n and to != missing else None
    t.check(got is want, 'branch {} to {} of {} (missing {}) at {:#x}: {}, expected {}', at, to, n, missing, base, got, want)
    for x in listed:
        if x is not b:
            t.check(x.branch_to(listed) is None, '{} has a target', x)
    t.step(n)
    t.state(base, n, at, to, missing)
    t.sample(base=hex(base), instructions=n, branch_at=at, to=to)


def unaligned(t):
    """Only the instruction at the very address of the target"""
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    to = t.int(0, 15)
    present = t.subset([0, 1, 2, 3, 4, 6, 7, 8, 12])
    listed = [CAPSInstruction(0xe1a00000, a) for a in present]
    jump = CAPSInstruction(0xe3a0f000 | to, 0x100)
    t.equal(jump.jumping_address, to, 'target')
    got = jump.branch_to(listed + [jump])
    want = [x for x in listed if x.address == to]
    t.check(got is (want[0] if want else None), 'target {} among instructions at {}: {}', to, present, got and got.address)
    t.step(len(present))
    t.state(to, tuple(present))


HARNESSES = [Harness('branches', branches, 'b and bl x 15 conditions x 7 addresses, both ends of the memory included x 15 to 63 offsets'),
             Harness('all-offsets', all_offsets, 'every value of either half of the offset, the other half zeros or ones x 2 addresses'),
             Harness('generic', generic, 'the decoder independent target x 7 addresses x 63 offsets'),
             Harness('others', others, '9 instructions that do not branch and 10 whose target is not known x 7 addresses'),
             Harness('immediate-jump', immediate_jump, 'moving an immediate to the PC: every rotation x 6 values'),
             Harness('lookup', lookup, 'programs of 1..4 instructions x branch at any place x targets from -2 to n+1 x any instruction missing x 4 addresses'),
             Harness('unaligned', unaligned, 'moving 0..15 to the PC x any subset of 9 addresses in 0..12 with an instruction')]
