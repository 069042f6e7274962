"""
An independent decoder of the ARM instructions the programs are made of, from the fields of the encoding (ARM ARM, A5):
data processing, multiplications, loads and stores of words, bytes, halfwords and double words, load and store
multiple, branches.  It says which registers, memory and flags an instruction uses; None means it says nothing.
"""

AL = 14
COMPARES = (8, 9, 10, 11)
MOVES = (13, 15)


class Facts(object):
    def __init__(self, kind, used, written=None, read=None, memory=None, branch=False, link=False, flags=False, target=None,
                 operation=None, may_write=(), stack=None):
        self.kind, self.used, self.written, self.read = kind, set(used), written, read
        self.memory, self.branch, self.link, self.flags, self.target = memory, branch, link, flags, target
        self.operation, self.may_write, self.stack = operation, set(may_write), stack


def dp(op, s, rn, rd, operand, regs, reg_shift=False, cond=AL, imm=False):
    """operand: the low 12 bits, regs: the registers they name"""
    if op in COMPARES:
        s, rd = 1, 0
    if op in MOVES:
        rn = 0
    enc = cond << 28 | (1 << 25 if imm else 0) | op << 21 | s << 20 | rn << 16 | rd << 12 | operand
    sources = set(regs) | (set() if op in MOVES else {rn})
    written = set() if op in COMPARES else {rd}
    branch = rd == 15 and op not in COMPARES
    target = None
    if branch and op == 13 and imm:
        rot = 2 * (operand >> 8)
        v = operand & 0xff
        target = ((v >> rot) | (v << (32 - rot))) & 0xffffffff if rot else v
    return enc, Facts('dp', sources | written, written, sources, branch=branch, flags=bool(s), target=target,
                      operation=('dp', op) if op != 13 else None)


def mem(load, byte, rn, rt, pre, up, wb, operand, regs, reg_offset, cond=AL):
    enc = (cond << 28 | 1 << 26 | reg_offset << 25 | pre << 24 | up << 23 | byte << 22 | wb << 21 | load << 20 | rn << 16 |
           rt << 12 | operand)
    back = wb or not pre
    used = {rn, rt} | set(regs)
    if load and not byte and not reg_offset and not pre and not wb and up and rn == 13 and operand == 4:
        return enc, Facts('pop', used, stack='pop', written={13, rt}, read={13}, branch=rt == 15)
    return enc, _access(load, rn, {rt}, regs, back, used, ('mem', load, byte, not pre and wb))


def mem_extra(load, kind, rn, rt, pre, up, wb, operand, regs, reg_offset, cond=AL):
    """kind: 1 halfword, 2 signed byte (ldrd), 3 signed halfword (strd)"""
    enc = (cond << 28 | pre << 24 | up << 23 | (0 if reg_offset else 1) << 22 | wb << 21 | load << 20 | rn << 16 | rt << 12 |
           (operand & 0xf0) << 4 | 1 << 7 | kind << 5 | 1 << 4 | operand & 0xf)
    double = not load and kind != 1
    really_load = load or kind == 2
    data = {rt, rt + 1} if double else {rt}
    return enc, _access(really_load, rn, data, regs, wb or not pre, {rn} | data | set(regs), ('extra', load, kind, not pre and wb))


def _access(load, rn, data, regs, back, used, operation):
    if load:
        return Facts('load', used, set(sorted(data)[:1]), {rn} | set(regs) if len(data) == 1 else None, 'read',
                     branch=15 in data, operation=operation, may_write=data | ({rn} if back else set()))
    return Facts('store', used, None, None, 'write', operation=operation)


def multiple(load, rn, regs, pre, up, wb, cond=AL):
    enc = cond << 28 | 4 << 25 | pre << 24 | up << 23 | wb << 21 | load << 20 | rn << 16 | sum(1 << r for r in regs)
    regs = set(regs)
    if rn == 13 and wb and len(regs) > 1 and (load, pre, up) == (1, 0, 1):
        return enc, Facts('pop', regs | {13}, regs | {13}, {13}, None, 15 in regs, stack='pop')
    if rn == 13 and wb and len(regs) > 1 and (load, pre, up) == (0, 1, 0):
        return enc, Facts('push', regs | {13}, set(), regs | {13}, None, stack='push')
    if load:
        return enc, Facts('ldm', regs | {rn}, regs | ({rn} if wb else set()), {rn}, None, 15 in regs, operation=('ldm', pre, up))
    return enc, Facts('stm', regs | {rn}, None, None, None, operation=('stm', pre, up))


def mul(acc, s, rd, rn, rs, rm, cond=AL):
    enc = cond << 28 | acc << 21 | s << 20 | rd << 16 | (rn if acc else 0) << 12 | rs << 8 | 9 << 4 | rm
    read = {rs, rm} | ({rn} if acc else set())
    return enc, Facts('mul', read | {rd}, {rd}, read, flags=bool(s), operation=('mul', acc))


def b(link, offset, addr, cond=AL):
    enc = cond << 28 | 5 << 25 | link << 24 | offset & 0xffffff
    signed = offset - (1 << 24) if offset & 0x800000 else offset
    return enc, Facts('b', set(), {15}, set(), branch=True, link=bool(link), target=(addr + 8 + 4 * signed) & 0xffffffff,
                      operation=('b', link))


def bx(link, rm, cond=AL):
    enc = cond << 28 | 0x012fff10 | link << 5 | rm
    return enc, Facts('bx', {rm}, {15}, {rm}, branch=True, link=bool(link), operation=('bx', link))


def decode(e, addr):
    """The facts of an encoding, None if it is not one of the instructions above"""
    cond, rn, rd, rs, rm = e >> 28, e >> 16 & 15, e >> 12 & 15, e >> 8 & 15, e & 15
    if cond == 15:
        return None
    if e & 0x0ffffff0 in (0x012fff10, 0x012fff30) and rm != 15:
        made = bx(e >> 5 & 1, rm, cond)
    elif e >> 25 & 7 == 5:
        made = b(e >> 24 & 1, e & 0xffffff, addr, cond)
    elif e >> 25 & 7 == 4 and not e & 1 << 22 and rn != 15 and e & 0xffff:
        made = multiple(e >> 20 & 1, rn, [r for r in range(16) if e >> r & 1], e >> 24 & 1, e >> 23 & 1, e >> 21 & 1, cond)
    elif e >> 26 & 3 == 1 and not (e & 1 << 25 and e & 1 << 4):
        if not e >> 24 & 1 and e >> 21 & 1 and rd == 15:
            return None
        reg = e >> 25 & 1
        made = mem(e >> 20 & 1, e >> 22 & 1, rn, rd, e >> 24 & 1, e >> 23 & 1, e >> 21 & 1, e & 0xfff, [rm] if reg else [], reg, cond)
    elif e & 0x0fc000f0 == 0x00000090 and 15 not in (rn, rd, rs, rm):
        made = mul(e >> 21 & 1, e >> 20 & 1, rn, rd, rs, rm, cond)
    elif e & 0x0e000090 == 0x90 and e & 0x60:
        if not e >> 24 & 1 and e >> 21 & 1 and (rd == 15 or not e >> 20 & 1 and e >> 6 & 1) or rd >= 14 and not e >> 20 & 1 and e >> 6 & 1:
            return None
        reg = not e >> 22 & 1
        made = mem_extra(e >> 20 & 1, e >> 5 & 3, rn, rd, e >> 24 & 1, e >> 23 & 1, e >> 21 & 1, rm if reg else e >> 4 & 0xf0 | rm,
                         [rm] if reg else [], reg, cond)
    elif e >> 26 & 3 == 0 and (e & 1 << 25 or e & 0x90 != 0x90):
        op = e >> 21 & 15
        if op in COMPARES and not e >> 20 & 1:
            return None
        imm = e >> 25 & 1
        regs = [] if imm else [rm, rs] if e >> 4 & 1 else [rm]
        made = dp(op, e >> 20 & 1, rn, rd, e & 0xfff, regs, cond=cond, imm=imm)
    else:
        return None
    return made[1] if made[0] == e else None
