"""The fields of a decoded instruction agree with its encoding."""
from mc.core import Harness
from mc import arm

ADDR = 0x10000
_canonical = {}


def compare(t, enc, f, cond, may_be_undefined=False):
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    from semantic_codec.architecture.arm_constants import AReg
    x = CAPSInstruction(enc, ADDR)
    what = '%#010x' % enc
    if x.is_undefined:
        t.check(may_be_undefined, '{} does not decode', what)
        t.check(x.ignore, 'an undefined instruction is not ignored, {}', what)
        t.prune()
    what += ' %s' % x
    t.equal(x.encoding, enc, 'encoding of %s' % what)
    t.equal(x.address, ADDR, 'address of %s' % what)
    t.equal(x.conditional_field, cond, 'condition of %s' % what)
    used = x.registers_used()
    t.equal(sorted(used), sorted(f.used), 'registers used by %s' % what)
    got_w, got_r = set(x.registers_written()), set(x.registers_read())
    t.check(got_w | got_r <= f.used, 'registers written {} or read {} by {} are not used', got_w, got_r, what)
    if f.written is not None:
        want_w = f.written - ({15} if f.kind in ('b', 'bx') else set())
        if f.may_write:
            t.check(want_w <= got_w <= f.may_write, 'registers written by {}: {}, expected {}', what, got_w, want_w)
        else:
            t.equal(sorted(got_w), sorted(want_w), 'registers written by %s' % what)
    if f.read is not None:
        t.equal(sorted(got_r), sorted(f.read), 'registers read by %s' % what)
    t.equal(bool(x.is_branch), f.branch, 'branch or not: %s' % what)
    t.equal(bool(x.is_branch_with_link), f.link, 'branch with link or not: %s' % what)
    t.equal(bool(x.modifies_flags()), f.flags, 'flags modified or not: %s' % what)
    t.equal(bool(x.is_push_pop), f.stack is not None, 'push or pop: %s' % what)
    for v in ('push', 'pop'):
        t.equal(bool(x.is_a(v)), f.stack == v, 'is it a %s: %s' % (v, what))
    # storages: registers, the memory, and the register of those that use none.  Twice, the second time from the caches
    for _ in range(2):
        su, sr, sw = set(x.storages_used()), set(x.storages_read()), set(x.storages_written())
        if f.kind in ('dp', 'load', 'store', 'mul', 'b', 'bx'):
            t.equal(sorted(su - {18}), sorted(f.used | ({16} if f.memory else set())), 'storages used by %s' % what)
            t.equal(18 in su, not f.used and not f.memory, 'use of no register by %s' % what)
            t.equal(16 in sr, f.memory == 'read', 'memory read by %s' % what)
            t.equal(16 in sw, f.memory == 'write', 'memory written by %s' % what)
        t.equal(sorted(sr - {16}), sorted(got_r), 'registers in the storages read by %s' % what)
        t.equal(sorted(sw - {16}), sorted(got_w | ({15} if f.branch else set())), 'registers in the storages written by %s' % what)
    if f.operation is not None:
        seen = _canonical.setdefault(x.opcode_field, f.operation)
        t.equal(seen, f.operation, 'operation of opcode %d, %s' % (x.opcode_field, what))
        _reverse.setdefault(f.operation, x.opcode_field)
        t.equal(_reverse[f.operation], x.opcode_field, 'opcode of the operation %s, %s' % (f.operation, what))
    t.step()
    t.state(f.kind, x.opcode_field, tuple(sorted(f.used)), cond)
    t.sample(encoding='%#x' % enc, text=str(x), used=sorted(f.used))


_reverse = {}
REGS = [0, 1, 7, 12, 13, 14, 15]


def regs(t, extra=()):
    return t.pick(REGS if t.tier == 'thorough' else [0, 1, 12, 13, 15])


def data_processing(t):
    op = t.int(0, 15)
    s = 0 if op in arm.COMPARES else t.int(0, 1)
    rn = 0 if op in arm.MOVES else regs(t)
    rd = 0 if op in arm.COMPARES else regs(t)
    cond = t.pick([14, 0, 1])
    form = t.pick(['immediate', 'register', 'shifted', 'shifted by register'])
    if form == 'immediate':
        e, f = arm.dp(op, s, rn, rd, t.pick([0, 1, 0xff, 0x4ff]), [], imm=True, cond=cond)
    elif form == 'register':
        rm = regs(t)
        e, f = arm.dp(op, s, rn, rd, rm, [rm], cond=cond)
    elif form == 'shifted':
        rm = regs(t)
        e, f = arm.dp(op, s, rn, rd, t.pick([0x180, 0x1a0, 0x1c0, 0x060]) | rm, [rm], cond=cond)
    else:
        rm, rs = regs(t), regs(t)
        if 15 in (rn, rd, rm, rs) or cond != 14:
            t.prune()
        e, f = arm.dp(op, s, rn, rd, rs << 8 | t.pick([0x10, 0x30, 0x50, 0x70] if rn == 0 else [0x10, 0x70]) | rm, [rm, rs], cond=cond)
    # flag setting forms that write the PC return from an exception: may have no representation
    compare(t, e, f, cond, may_be_undefined=s == 1 and rd == 15)


def conditions(t):
    """Every condition, on one instruction of every kind"""
    cond = t.int(0, 14)
    e, f = t.pick([arm.dp(4, 0, 1, 2, 3, [3], cond=cond), arm.dp(10, 1, 1, 0, 3, [3], cond=cond),
                   arm.dp(13, 0, 0, 2, 1, [], imm=True, cond=cond), arm.mem(1, 0, 1, 2, 1, 1, 0, 4, [], 0, cond=cond),
                   arm.mem(0, 0, 1, 2, 1, 1, 0, 4, [], 0, cond=cond), arm.b(0, 2, ADDR, cond=cond), arm.b(1, 2, ADDR, cond=cond),
                   arm.bx(0, 14, cond=cond), arm.bx(1, 3, cond=cond), arm.multiple(1, 13, [4, 15], 0, 1, 1, cond=cond),
                   arm.multiple(0, 13, [4, 14], 1, 0, 1, cond=cond), arm.mul(0, 0, 1, 0, 2, 3, cond=cond)])
    compare(t, e, f, cond)


def flags(t):
    """Every operation in every condition, setting the flags or not"""
    cond, op = t.int(0, 14), t.int(0, 15)
    s = 0 if op in arm.COMPARES else t.int(0, 1)
    imm = t.bool()
    e, f = arm.dp(op, s, 0 if op in arm.MOVES else 1, 0 if op in arm.COMPARES else 2, 3, [] if imm else [3], imm=imm, cond=cond)
    compare(t, e, f, cond)


def loads(t):
    load, rn, rt = t.int(0, 1), regs(t), regs(t)
    pre, wb = t.pick([(1, 0), (1, 1), (0, 0), (0, 1)])
    back = wb or not pre
    up = t.int(0, 1)
    what = t.pick(['word', 'byte', 'halfword', 'signed byte', 'signed halfword'])
    reg = t.int(0, 1)
    rm = regs(t) if reg else 0
    if pre < wb and (rt == 15 or what in ('signed byte', 'signed halfword') and not load):
        t.prune()
    if (back and (rn == rt or rn == 15)) or (reg and rm == 15) or (back and reg and rm == rn):
        t.prune()
    if what in ('word', 'byte'):
        if rt == 15 and what == 'byte':
            t.prune()
        low = rm | t.pick([0, 0x100]) if reg else t.pick([0, 4, 0xfff])
        if load and rn == 13 and not pre and not up and not reg and low == 4:
            t.prune()       # capstone itself prints ldr rt, [sp], #-4 as pop {rt}
        e, f = arm.mem(load, int(what == 'byte'), rn, rt, pre, up, wb, low, [rm] if reg else [], reg)
    else:
        if rt == 15:
            t.prune()
        kind = {'halfword': 1, 'signed byte': 2, 'signed halfword': 3}[what]
        if not load and kind != 1:
            if rt % 2 or rt >= 14 or (back and rn == rt + 1) or (reg and rm in (rt, rt + 1)):
                t.prune()
        e, f = arm.mem_extra(load, kind, rn, rt, pre, up, wb, rm if reg else t.pick([0, 4, 0xff]), [rm] if reg else [], reg)
    compare(t, e, f, 14, may_be_undefined=15 in (rn, rt))


def multiples(t):
    load = t.int(0, 1)
    rn = t.pick([0, 1, 12, 13])
    chosen = t.subset([0, 1, 4, 11, 12, 14, 15])
    if not chosen:
        t.prune()
    pre, up, wb = t.int(0, 1), t.int(0, 1), t.int(0, 1)
    if wb and rn in chosen or (not load and 15 in chosen):
        t.prune()
    e, f = arm.multiple(load, rn, chosen, pre, up, wb)
    compare(t, e, f, 14)


def rest(t):
    kind = t.pick(['mul', 'mla', 'bx', 'b'])
    if kind in ('mul', 'mla'):
        r = [t.pick([0, 1, 2, 12, 13, 14]) for _ in range(4 if kind == 'mla' else 3)]
        if 13 in r:
            t.prune()
        e, f = arm.mul(int(kind == 'mla'), t.int(0, 1), r[0], r[3] if kind == 'mla' else 0, r[1], r[2])
    elif kind == 'bx':
        e, f = arm.bx(t.int(0, 1), t.int(0, 14))
    else:
        e, f = arm.b(t.int(0, 1), t.pick([0, 1, 2, 0x7fffff, 0x800000, 0xffffff, 0xfffffe]), ADDR)
    compare(t, e, f, 14)


def programs(t):
    from mc import real
    words = real.distinct()
    a, e = words[t.choose(len(words))]
    k = t.choose(33)
    if k < 32:
        e ^= 1 << k
        if t.tier == 'thorough':
            other = t.choose(k + 1)
            e ^= 1 << other if other < k else 0
    f = arm.decode(e, a)
    if f is None or real.undefined(e) or e & 0x0fff0fff == 0x041d0004:     # the last: see loads
        t.prune()
    compare(t, e, f, e >> 28)


OPERANDS = [0x00012003, 0x000f0f0f, 0x00000000, 0x000fff0f, 0x000d4020, 0x0001f00e, 0x00056708, 0x000b9a0c]


def any_word(t):
    """Whatever capstone decodes, coprocessor and vector instructions too, has a description: the encoding's condition, and storages that are
    among those used"""
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    high, cond = t.int(0, 255), t.pick([14, 15, 0, 9] if t.tier == 'thorough' else [14, 15, 0])
    for low in range(16):
        for operands in OPERANDS:
            enc = cond << 28 | high << 20 | operands & ~0xf0 | low << 4
            x = CAPSInstruction(enc, ADDR)
            if x.is_undefined:
                t.check(x.ignore, 'an undefined instruction is not ignored, {:#x}', enc)
                continue
            what = '%#010x %s' % (enc, x)
            if not str(x).startswith('hvc'):        # has no condition, its bits are part of nothing
                t.equal(x.conditional_field, 14 if cond == 15 else cond, 'condition of %s' % what)
            for used, read, written in ((x.registers_used(), x.registers_read(), x.registers_written()),
                                        (x.storages_used(), x.storages_read(), x.storages_written())):
                for some in (used, read, written):
                    t.check(len(set(some)) == len(some), 'the same storage twice in {}, {}', some, what)
                beyond = set(read) | set(written)
                t.check(beyond - {15} <= set(used) and (15 in used or 15 not in beyond or x.is_branch),
                        'read {} or written {}, but used only {}: {}', read, written, used, what)
            t.check(bool(x.storages_used()), 'no storage at all, {}', what)
            t.equal(bool(x.modifies_flags()), bool(x.modifies_flags()), 'flags of %s' % what)
            t.check(not x.is_branch_with_link or x.is_branch, 'a call that is no branch: {}', what)
            t.equal(bool(x.is_push_pop), x.is_a('push') or x.is_a('pop'), 'push or pop: %s' % what)
            t.step()
            t.state(x.opcode_field, cond)
    t.sample(high=high, condition=cond)


HARNESSES = [Harness('data-processing', data_processing, 'all 16 operations x flags x 4 operand forms x 5 (7) values of each register field x 3 conditions'),
             Harness('conditions', conditions, 'all 15 conditions x 12 kinds of instruction'),
             Harness('flags', flags, 'all 15 conditions x all 16 operations x flags x immediate or register'),
             Harness('loads-stores', loads, 'loads and stores of 5 sizes x 3 addressing modes and the unprivileged one x immediate or register offset x 5 (7) values of each register field'),
             Harness('multiple', multiples, 'load and store multiple, push and pop x every subset of 7 registers x 4 bases x addressing mode'),
             Harness('rest', rest, 'multiplications, branches and branches to registers'),
             Harness('any-word', any_word, 'every combination of the bits 27..20 and 7..4 x 8 operands x 3 (4) conditions: coprocessor and vector instructions too'),
             Harness('programs', programs, 'every word of the 8 programs of the repository x any one bit of it changed (thorough: two), or none')]
