"""Random bit corruption: whatever the random source answers, the variants are all the flips of `amount` bits of the field."""
from itertools import combinations
from mc.core import Harness, ControlledRandom
from mc.programs import CODE, inst, BASE

FIELDS = {'conditional': (28, 31), 'registers': (0, 10), 'opcode': (20, 27)}
VALUE = 0xe59f502c


def exact_variants(t, got, value, lo, hi, amount, what):
    got = [int(x) for x in got]
    t.check(got[0] == value, '{}: the uncorrupted value is not the first variant', what)
    t.check(len(got) == 2 ** amount, '{}: {} variants, expected {}', what, len(got), 2 ** amount)
    t.check(len(set(got)) == len(got), '{}: repeated variants', what)
    touched = 0
    for g in got:
        touched |= g ^ value
    t.check(bin(touched).count('1') == amount, '{}: {} different bits are touched, expected {}', what, bin(touched).count('1'), amount)
    t.check(touched & ~(((1 << (hi - lo + 1)) - 1) << lo) == 0, '{}: bits outside of the field are touched: {:x}', what, touched)
    t.step(len(got))
    return touched


def any_field(t):
    from semantic_codec.corruption.corruption import corrupt_bits
    big = t.tier == 'thorough'
    lo, width = t.pick([(0, 1), (0, 4), (3, 4), (28, 4), (20, 8), (30, 2), (0, 32)])
    amount = t.int(0, min(width, 4 if not big else 5))
    value = t.pick([VALUE, 0, 0x11 << lo & 0xffffffff, 0xffffffff]) if amount < 4 else VALUE
    with ControlledRandom(t, budget=amount + (1 if not big else 2), wide=8):
        got = corrupt_bits(lo + width - 1, lo, amount, value)
    touched = exact_variants(t, got, value, lo, lo + width - 1, amount, 'corrupt %d of bits %d..%d' % (amount, lo, lo + width - 1))
    t.state(lo, width, amount, value, touched)
    t.sample(lo=lo, width=width, amount=amount, touched=touched)


def whole_field(t):
    """Every bit of a field of 5 or 6"""
    from semantic_codec.corruption.corruption import corrupt_bits
    width = t.int(5, 6)
    lo = t.pick([0, 13, 32 - width])
    amount = t.int(width - 1, width)
    with ControlledRandom(t, budget=amount + (1 if width == 6 or t.tier == 'quick' else 2), wide=8):
        got = corrupt_bits(lo + width - 1, lo, amount, VALUE)
    touched = exact_variants(t, got, VALUE, lo, lo + width - 1, amount, 'corrupt %d of bits %d..%d' % (amount, lo, lo + width - 1))
    t.state(lo, width, amount, touched)
    t.sample(lo=lo, width=width, amount=amount, touched=touched)


def many_bits(t):
    """A dozen bits: thousands of variants"""
    from semantic_codec.corruption.corruption import corrupt_bits
    lo, width = t.pick([(0, 32), (3, 14), (18, 14)])
    amount = t.pick([8, 9, 11] if t.tier == 'quick' else [7, 8, 9, 10, 11, 12, 13])
    with ControlledRandom(t, budget=3, wide=4):
        got = corrupt_bits(lo + width - 1, lo, amount, VALUE)
    touched = exact_variants(t, got, VALUE, lo, lo + width - 1, amount, 'corrupt %d of bits %d..%d' % (amount, lo, lo + width - 1))
    t.state(lo, amount, touched)
    t.sample(lo=lo, width=width, amount=amount, touched=touched)


def named_field(t):
    from semantic_codec.corruption import corruption
    name = t.pick(sorted(FIELDS))
    lo, hi = FIELDS[name]
    amount = t.int(0, 3)
    f = {'conditional': corruption.corrupt_conditional, 'registers': corruption.corrupt_registers,
         'opcode': corruption.corrupt_opcode}[name]
    value = t.pick([VALUE, 0, 0xe0010392, 0xffffffff])
    with ControlledRandom(t, budget=amount + 1, wide=12 if t.tier == 'thorough' else 8):
        got = f(amount, value)
    touched = exact_variants(t, got, value, lo, hi, amount, name)
    t.state(name, amount, value, touched)
    t.sample(field=name, amount=amount, touched=touched)


def distribution(t):
    from semantic_codec.corruption.corruption import distribute_random_amount
    bins = t.int(1, 4)
    amount = t.int(0, 3 if t.tier == 'quick' else 4)
    with ControlledRandom(t, budget=2 * bins + (0 if t.tier == 'quick' else 1), wide=8):
        got = distribute_random_amount(amount, bins)
    got = [int(x) for x in got]
    t.check(len(got) == bins, '{} shares for {} fields', len(got), bins)
    t.check(all(x >= 0 for x in got) and sum(got) <= amount, 'shares {} of {}', got, amount)
    if bins == 1:
        t.equal(got, [amount], 'the only share')
    t.state(bins, amount, tuple(got))
    t.step(bins)
    t.sample(fields=bins, amount=amount, shares=got)


DECODABLE = {}


def decodable_variants(e, mask):
    """The decodable words that result from every flip of the bits of the mask"""
    res, sub = set(), mask
    while True:
        if e ^ sub not in DECODABLE:
            DECODABLE[e ^ sub] = not inst(e ^ sub, BASE).ignore
        if DECODABLE[e ^ sub]:
            res.add(e ^ sub)
        if not sub:
            return res
        sub = (sub - 1) & mask


def explained(got, e, allowed, amount):
    """
    True if the candidates are all the decodable flips of as many bits of the fields as said
    """
    mask = 0
    for x in got:
        mask |= x ^ e
    more = [b for b in range(32) if (allowed >> b) & 1 and not (mask >> b) & 1]
    n = bin(mask).count('1')
    return n <= amount and any(decodable_variants(e, mask | sum(1 << b for b in extra)) == set(got)
                               for extra in combinations(more, amount - n))


def instruction(t):
    from semantic_codec.corruption.corruption import corrupt_instruction
    cond, regs, op = t.bool(), t.bool(), t.bool()
    if not (cond or regs or op):
        t.prune()
    amount = t.int(1, 3)
    # any two changes of the opcode of the last one decode, so none of its variants is dropped
    original = inst(t.pick(['add r0,r0,r1', 'ldr r0,[r1]', 0xe18072e8]), BASE)
    other = inst('nop', BASE + 4)
    program = {BASE: [original], BASE + 4: [other]}
    with ControlledRandom(t, budget=6 if t.tier == 'quick' else 8, wide=4):
        if (cond, regs, op, amount) == (True, False, False, 2):
            res = corrupt_instruction(program, original, BASE)
        else:
            res = corrupt_instruction(program, original, BASE, conditional=cond, registers=regs, opcode=op, amount=amount)
    got = [x.encoding for x in program[BASE]]
    t.equal([x.encoding for x in res], got, 'returned candidates')
    t.check(got[0] == original.encoding, 'the original is not the first candidate')
    t.check(len(set(got)) == len(got), 'repeated candidates {}', got)
    t.check(len(got) <= 2 ** amount, '{} candidates from {} bits', len(got), amount)
    allowed = 0
    for k, on in (('conditional', cond), ('registers', regs), ('opcode', op)):
        if on:
            lo, hi = FIELDS[k]
            allowed |= ((1 << (hi - lo + 1)) - 1) << lo
    for x in program[BASE]:
        diff = x.encoding ^ original.encoding
        t.check(diff & ~allowed == 0, 'bits {:x} outside of the chosen fields differ', diff & ~allowed)
        t.check(bin(diff).count('1') <= amount, '{:x}: more than {} bits differ', x.encoding, amount)
        t.check(x.address == BASE, 'candidate at address {}', x.address)
        t.check(not x.ignore, 'an undecodable candidate was added')
    if cond + regs + op == 1:
        t.check(explained(got, original.encoding, allowed, amount), 'fields {}: the candidates {} are not all the flips of {} bits',
                [cond, regs, op], got, amount)
    t.equal([x.encoding for x in program[BASE + 4]], [other.encoding], 'the other address')
    t.step(len(got))
    t.state(cond, regs, op, amount, tuple(got))
    t.sample(fields=[cond, regs, op], amount=amount, candidates=got)


def crowded(t):
    """Dozens of candidates of one instruction"""
    from semantic_codec.corruption.corruption import corrupt_instruction
    amount = t.pick([5, 6, 7, 8] if t.tier == 'quick' else [5, 6, 7, 8, 9, 10, 11])
    original = inst(t.pick(['add r0,r0,r1', 'cmp r1,#0', 0xe0010392]), BASE)
    program = {BASE: [original]}
    with ControlledRandom(t, budget=3, wide=4):
        corrupt_instruction(program, original, BASE, conditional=False, registers=True, opcode=False, amount=amount)
    got = [x.encoding for x in program[BASE]]
    t.check(got[0] == original.encoding and len(set(got)) == len(got), 'the original is not the first of {}, or some repeat', got)
    t.check(explained(got, original.encoding, 0x7ff, amount), '{} bits of the registers of {:x}: {} candidates, which are not all the flips of them',
            amount, original.encoding, len(got))
    t.step(len(got))
    t.state(amount, tuple(got))
    t.sample(amount=amount, candidates=len(got))


HARNESSES = [Harness('any-field', any_field, '7 fields x amount 0..4 (thorough 5) x 4 words (1 for more than 3 bits) x every answer of the random source (5 '
                     'representatives for fields wider than 8), including 1 (2) repeated answers'),
             Harness('whole-field', whole_field, 'fields of 5 and 6 bits at 3 places, all of the bits or all but one x every answer of the random source, including a repeated one'),
             Harness('many-bits', many_bits, '8, 9, 11 (thorough 7..13) bits of 3 fields x the first 3 answers of the random source'),
             Harness('named-fields', named_field, 'condition, register and opcode fields x amount 0..3 x 4 words x random answers'),
             Harness('distribution', distribution, '1..4 fields x amount 0..3 (4) x random answers'),
             Harness('crowded', crowded, '5..8 (thorough 11) bits of the registers of 3 instructions x the first 3 random answers'),
             Harness('instruction', instruction, 'every selection of fields x amount 1..3 x 3 instructions x the first 6 (8) '
                     'random answers')]
