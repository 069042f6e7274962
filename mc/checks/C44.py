"""The views of a program: functions, list by address, candidates by address"""
from mc.core import Harness
from mc.programs import CODE, inst

ADDRS = [0x10000, 0x10004, 0, 0xfffffffc, 0x80000000, 0x10002]


def body(t):
    from semantic_codec.architecture.functions import ElfFunction
    from semantic_codec.metadata.probabilistic_rules.rules import from_functions_to_list_and_addr, \
        from_instruction_dict_to_list, from_instruction_list_to_dict
    big = t.tier == 'thorough'
    n = t.int(0, 5 if big else 4)
    addrs = t.arrangement(ADDRS, n)
    program = [inst(list(CODE.values())[i], a) for i, a in enumerate(addrs)]
    # any split into functions, each in increasing order
    cuts = [t.bool() for _ in addrs[1:]]
    functions, limits = [], {}
    for i, x in enumerate(program):
        if i == 0 or cuts[i - 1]:
            functions.append(ElfFunction('f%d' % i))
        elif addrs[i] < addrs[i - 1]:
            t.prune()
        functions[-1].instructions.append(x)
    if t.bool():
        functions.insert(t.int(0, len(functions)), ElfFunction('empty'))
    for f in functions:
        if f.instructions:
            limits[f.instructions[0].address] = (f.instructions[0].address, f.instructions[-1].address)
    listed, got = from_functions_to_list_and_addr(functions)
    ordered = sorted(program, key=lambda x: x.address)
    t.check([id(x) for x in listed] == [id(x) for x in ordered], 'the instructions of functions at {} are listed as {}', addrs,
            [x.address for x in listed])
    t.equal(got, limits, 'limits of the functions at %s' % addrs)
    by_addr = from_instruction_list_to_dict(program)
    t.equal(list(by_addr), addrs, 'addresses')
    t.check(all(len(v) == 1 and v[0] is x for v, x in zip(by_addr.values(), program)), 'candidates at {}', addrs)
    for v in by_addr.values():
        v.append(inst('nop', 0))
    views = from_instruction_dict_to_list(by_addr)
    t.check(len(views) == n and all(v is by_addr[x.address] for v, x in zip(views, ordered)),
            'the candidates at {} are not listed by address, or are copies', addrs)
    t.equal(list(by_addr), addrs, 'addresses after listing')
    t.step(3)
    t.state(tuple(addrs), tuple(cuts))
    t.sample(addresses=addrs, functions=[len(f.instructions) for f in functions])


def candidates(t):
    """Any number of candidates at any addresses, in any order"""
    from semantic_codec.metadata.probabilistic_rules.rules import from_instruction_dict_to_list
    big = t.tier == 'thorough'
    n = t.int(0, 5 if big else 4)
    addrs = t.arrangement([0x10008, 0x80000000, 0x10004, 0, 0xfffffffc, 0x20000][:6 if big else 5], n)
    word = t.pick([lambda i, j: CODE['nop'], lambda i, j: list(CODE.values())[-1 - i - j]])
    program = {a: [inst(word(i, j), a) for j in range(t.int(0, 3 if n < 4 else 2))] for i, a in enumerate(addrs)}
    before = {a: [id(x) for x in v] for a, v in program.items()}
    views = from_instruction_dict_to_list(program)
    t.check(len(views) == n and all(v is program[a] for v, a in zip(views, sorted(program))),
            'the candidates at {} are not listed by address: {}', [(a, len(v)) for a, v in program.items()], [len(v) for v in views])
    t.check({a: [id(x) for x in v] for a, v in program.items()} == before and list(program) == list(addrs),
            'listing changes the candidates at {}', addrs)
    t.step()
    t.state(tuple((a, len(v)) for a, v in program.items()))
    t.sample(candidates=[(a, len(v)) for a, v in program.items()])


HARNESSES = [Harness('views', body, '0..4 (thorough 5) instructions at 6 addresses, both ends of the memory and an unaligned one included, in any order x every '
                     'split into functions, with or without an empty one'),
             Harness('candidates', candidates, '0..4 (thorough 5) of 5 (6) addresses in any order x 0..3 (0..2 for 4 and more) candidates at each')]
