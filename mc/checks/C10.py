"""Random corruption of a program: amount, termination, original kept first, whatever the random source answers."""
import math
from fractions import Fraction
from mc.core import Harness, ControlledRandom
from mc.programs import CODE, inst, BASE, encodings

ORIG = ['add r0,r0,r1', 0x00000000, 'ldr r0,[r1]', 'cmp r1,#0', 'mov r0,#1', 'push {r4,lr}', 'bne -8']
LAYOUTS = {
    'contiguous': lambda i: BASE + 4 * i,
    'gaps': lambda i: BASE + 0x40 * i,
    'far': lambda i: BASE + (0x10000 if i else 0) + 4 * i,
    'descending': lambda i: BASE + 0x100 - 4 * i,
}


def body(t):
    from semantic_codec.corruption.corruption import corrupt_program
    big = t.tier == 'thorough'
    n = t.int(1, 5 if big else 4)
    layout = t.pick(sorted(LAYOUTS))
    percent = t.pick([0, 1, 25, 30, 50.0, 67, 75, 100] if big else [0, 30, 50.0, 100])
    amount = t.pick([-1, 1, 2] + ([3] if big else []))
    done = t.int(0, 1)          # addresses that are corrupted already
    addrs = [LAYOUTS[layout](i) for i in range(n)]
    program = {a: [inst(ORIG[i], a)] for i, a in enumerate(addrs)}
    for a in addrs[:done]:
        program[a].append(inst(program[a][0].encoding ^ 1, a))
    before = encodings(program)
    with ControlledRandom(t, budget=5 if not big else 6, wide=4):
        corrupt_program(program, percent, amount)
    after = encodings(program)
    t.equal(sorted(after), sorted(before), 'addresses')
    hit = [a for a in addrs if after[a] != before[a]]
    want = min(math.ceil(max(1, Fraction(percent) * n / 100)), n - done)
    t.check(len(hit) == want, '{} addresses of {} were corrupted at {}%, expected {}', len(hit), n, percent, want)
    for a in addrs:
        now = after[a]
        t.check(now[0] == before[a][0], 'the original is not the first candidate of {:x}', a)
        t.check(all(x.address == a for x in program[a]), 'a candidate of {:x} has another address', a)
        if a in hit:
            t.check(len(before[a]) == 1, 'an address that was corrupted already was corrupted again')
            t.check(len(set(now)) == len(now), 'repeated candidates {}', now)
            touched = 0
            for e in now:
                touched |= e ^ now[0]
            bits = bin(touched).count('1')
            t.check(1 <= bits <= max(1, amount), '{} bits corrupted, at most {} allowed', bits, max(1, amount))
            t.check(len(now) == 2 ** bits, '{} candidates for {} corrupted bits', len(now), bits)
    t.step(len(hit) + 1)
    t.state(layout, n, percent, amount, done, tuple(sorted((a, tuple(v)) for a, v in after.items())))
    t.sample(layout=layout, addresses=n, percent=percent, max_bits=amount, corrupted=hit)


def large(t):
    """Every whole percentage of programs of up to a hundred instructions"""
    from semantic_codec.corruption.corruption import corrupt_program
    n = t.pick([7, 10, 20, 33, 50, 64, 97, 100, 128] if t.tier == 'quick' else list(range(6, 131)) + [200, 256, 257, 300])
    done = t.pick([0, 1, n // 2, n - 1])
    first = t.bool() if done else False
    amount = t.pick([1, 2])
    program = {BASE + 4 * i: [inst(ORIG[i % len(ORIG)], BASE + 4 * i)] for i in range(n)}
    for a in sorted(program)[:done] if first else sorted(program)[n - done:]:
        program[a].append(inst(program[a][0].encoding ^ 1, a))
    size = {a: len(v) for a, v in program.items()}
    for percent in list(range(101)) + [0.5, 10.0005, 12.5, 33.4, 50.001, 99.999] if t.tier == 'thorough' else [0, 1, 2, 3, 7, 14, 28, 29, 33, 50, 55, 56, 57, 58, 66, 99, 100, 0.5, 10.0005, 12.5, 33.4, 50.001]:
        with ControlledRandom(t, budget=0, wide=2):
            corrupt_program(program, percent, amount)
        hit = [a for a, v in program.items() if len(v) != size[a]]
        want = min(math.ceil(max(1, Fraction(percent) * n / 100)), n - done)
        t.check(len(hit) == want, '{} addresses of {} were corrupted at {}%, expected {}', len(hit), n, percent, want)
        for a in hit:
            t.check(size[a] == 1, 'an address that was corrupted already was corrupted again')
            t.check(program[a][0].encoding == ORIG_E[(a - BASE) // 4 % len(ORIG)], 'the original is not the first candidate of {:x}', a)
            t.check(2 <= len(program[a]) <= 2 ** amount, '{} candidates of {:x}', len(program[a]), a)
            del program[a][1:]
        t.step(1)
        t.state(n, done, first, amount, percent)
    t.sample(addresses=n, corrupted_before=done, max_bits=amount)


def crowded(t):
    """Addresses with dozens of candidates already, and as many bits as they have"""
    from semantic_codec.corruption.corruption import corrupt_program
    amount = t.pick([6, 7, 8])
    n = t.int(1, 2)
    program = {BASE + 4 * i: [inst(ORIG[2 * i], BASE + 4 * i)] for i in range(n)}
    before = encodings(program)
    with ControlledRandom(t, budget=4, wide=3):
        corrupt_program(program, 100, amount)
    for a, v in encodings(program).items():
        touched = 0
        for e in v:
            touched |= e ^ before[a][0]
        bits = bin(touched).count('1')
        t.check(v[0] == before[a][0] and 1 <= bits <= amount, '{} bits corrupted, at most {} allowed', bits, amount)
        t.check(len(v) == 2 ** bits == len(set(v)), '{} candidates for {} corrupted bits', len(v), bits)
    t.step(n)
    t.state(tuple(map(tuple, encodings(program).values())))
    t.sample(bits=amount, candidates=[len(v) for v in program.values()])


def refused(t):
    from semantic_codec.corruption.corruption import corrupt_program
    percent = t.pick([-1, -0.5, 100.5, 101, 1000])
    program = {BASE: [inst('nop', BASE)]}
    try:
        with ControlledRandom(t, budget=2, wide=2):
            corrupt_program(program, percent, 1)
    except RuntimeError:
        t.step(1)
        t.state(percent)
        return
    t.check(False, 'a corruption of {} percent was accepted', percent)


def corruptor(t):
    """The corruptor object: nothing but the above, and the candidate that is saved is the one returned"""
    from semantic_codec.corruption.corruptors import RandomCorruptor, JSONCorruptor
    from mc.common import scratch
    n = t.int(1, 3)
    save = t.bool()
    addrs = [BASE + 4 * i for i in range(n)]
    program = {a: [inst(ORIG[i], a)] for i, a in enumerate(addrs)}
    c = RandomCorruptor(t.pick([0, 50, 100]), t.int(1, 2), save)
    with scratch(), ControlledRandom(t, budget=4, wide=3):
        if save:
            c.corrupted_program_path = 'c.json'
        res = c.corrupt(program)
        t.check(any(len(v) > 1 for v in res.values()), 'nothing was corrupted')
        t.check(all(v[0].encoding == ORIG_E[i] for i, v in enumerate(res[a] for a in addrs)), 'an original is not first')
        if save:
            t.equal(encodings(JSONCorruptor('c.json').corrupt(None)), encodings(res), 'saved program')
    t.step(1)
    t.state(tuple(sorted((a, tuple(v)) for a, v in encodings(res).items())), save)


ORIG_E = [CODE.get(x, x) for x in ORIG]

HARNESSES = [Harness('program', body, '1..4 (thorough 5) addresses x 4 address layouts x percent x max bits x already corrupted '
                     'or not x the first 5 (6) answers of the random source (livelock = 20000 draws)'),
             Harness('large', large, '7..128 addresses (thorough every count 6..130, up to 300) x 17 (every) whole percentages and 5 (6) others x none, one, '
                     'half or all but one of them corrupted before, the first or the last ones, x 1..2 bits'),
             Harness('crowded', crowded, '1..2 addresses, up to 6..8 bits of each x the first 4 answers of the random source'),
             Harness('refused-percent', refused, 'percentages out of 0..100'),
             Harness('corruptor', corruptor, 'RandomCorruptor on 1..3 addresses, saving or not')]
