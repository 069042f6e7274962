"""Saving a corrupted program and loading it gives back the same candidates."""
from mc.core import Harness
from mc.common import scratch
from mc.programs import CODE, inst, BASE, encodings, candidates


ALPHABET = ['nop', 'cmp r1,#0', 'undefined', 'bne -8']


def body(t):
    from semantic_codec.corruption.corruption import save_corrupted_program_to_json, load_corrupted_program_from_json
    from semantic_codec.corruption.corruptors import JSONCorruptor
    n = t.int(0, 3)
    most = {1: 4, 2: 2, 3: 1} if t.tier == 'quick' else {1: 5, 2: 3, 3: 2}
    lists = [t.seq(ALPHABET + [0, 0xffffffff - 1], 0, most[n]) for _ in range(n)]
    addrs = t.arrangement([0, 6, 0x10000, 0xffffffff], n) if n < 3 else [0x10000, 0, 0xfffffffc]
    program = candidates(lists, addrs)
    want = encodings(program)
    with scratch():
        stale = t.bool() if n < 2 else False
        if stale:
            with open('c.json', 'w') as f:       # overwriting a longer file leaves nothing of it behind
                f.write('{"4": [1,2,3]}' + ' ' * 500 + '}')
        save_corrupted_program_to_json(program, 'c.json')
        t.equal(encodings(program), want, 'the program that was saved')
        a = load_corrupted_program_from_json('c.json')
        b = JSONCorruptor('c.json').corrupt(None)
        c = JSONCorruptor('c.json').corrupt({0: [inst('nop', 0)]})
        for x in (a, b, c):
            t.equal(encodings(x), want, 'loaded program')
            t.equal(list(x), list(program), 'order of the addresses')
            t.check(all(i.address == k for k, v in x.items() for i in v), 'a loaded candidate has another address')
            for k, v in x.items():
                t.equal([i.ignore for i in v], [i.ignore for i in program[k]], 'decodability of the loaded candidates')
    t.step(4)
    t.state(tuple((k, tuple(v)) for k, v in want.items()))
    t.sample(program={hex(k): [hex(e) for e in v] for k, v in want.items()})


def large(t):
    """Hundreds of addresses, thousands of candidates"""
    from semantic_codec.corruption.corruption import save_corrupted_program_to_json
    from semantic_codec.corruption.corruptors import JSONCorruptor
    n, m = t.pick([(11, 12), (101, 3), (300, 2), (1, 300), (2, 1030)])
    order = t.pick([1, -1])
    program = {BASE + 4 * i: [inst((CODE['add r0,r0,r1'] + 0x11 * i) ^ k, BASE + 4 * i) for k in range(m)] for i in range(n)[::order]}
    want = encodings(program)
    with scratch():
        save_corrupted_program_to_json(program, 'c.json')
        got = JSONCorruptor('c.json').corrupt(None)
    t.equal(encodings(got), want, 'loaded program')
    t.equal(list(got), list(want), 'order of the addresses')
    t.step(n * m)
    t.state(n, m, order)
    t.sample(addresses=n, candidates=m)


def no_path(t):
    from semantic_codec.corruption.corruptors import JSONCorruptor, RandomCorruptor
    kind = t.pick(['load', 'save'])
    try:
        if kind == 'load':
            JSONCorruptor().corrupt({})
        else:
            RandomCorruptor(100, 1, True).corrupt({BASE: [inst('nop', BASE)]})
    except RuntimeError:
        t.step(1)
        t.state(kind)
        return
    t.check(False, 'a corruptor without a path did not refuse to {}', kind)


HARNESSES = [Harness('json', body, '0..3 addresses (including 0 and the last one) x 0..4 candidates of one address, 0..2 of two, 0..1 of three '
                     '(thorough 5, 3, 2) from 6 encodings (undecodable ones too) x stale longer file or none'),
             Harness('large', large, '1..300 addresses x 2..1030 candidates of each, in both orders'),
             Harness('no-path', no_path, 'missing paths')]
