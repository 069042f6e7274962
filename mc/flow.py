"""Programs with branches, and the control transfers they really have"""
import functools
from collections import namedtuple
from mc import arm, real
from mc.programs import inst, BASE

# a word of a program; target: None for no branch, an index or 'out'
Word = namedtuple('Word', 'encoding target link conditional undefined')

PLAIN = {'mov': 0xe3a00001, 'movne': 0x13a00001, 'moveq': 0x03a00001, 'cmpne': 0x13510000, '?': 0xffffffff,
         'bx lr': 0xe12fff1e, 'bxne lr': 0x112fff1e, 'blx r3': 0xe12fff33, 'blxne r3': 0x112fff33, 'pop pc': 0xe8bd8010,
         'popeq pc': 0x08bd8010, 'mov pc,r0': 0xe1a0f000, 'ldr pc,[r1]': 0xe591f000, 'b out': 0xea000100, 'bl out': 0xeb000100,
         'bne out': 0x1a000100}
BR = {'b': 0xea000000, 'bne': 0x1a000000, 'bl': 0xeb000000, 'blne': 0x1b000000, 'beq': 0x0a000000}


def encode(op, i, step=4):
    """op: a name of PLAIN, or (branch, index of the target)"""
    if isinstance(op, Word):
        return op.encoding
    if isinstance(op, str):
        return PLAIN[op]
    b, target = op
    return BR[b] | ((((target - i) * step - 8) >> 2) & 0xffffff)


def program(ops):
    return [inst(encode(o, i), BASE + 4 * i) for i, o in enumerate(ops)]


@functools.lru_cache(None)
def facts(e):
    """(undefined, branch, with link, target relative to the instruction or None) of a word"""
    f = arm.decode(e, 0x1000000)
    target = f.target - 0x1000000 if f and f.kind == 'b' else None
    return real.undefined(e), bool(f and f.branch), bool(f and f.link), target


def given_words(words):
    """The operations of a run of words"""
    res = []
    for i, e in enumerate(words):
        undefined, is_branch, link, target = facts(e)
        if not is_branch:
            where = None
        else:
            where = 'out' if target is None or not 0 <= i + target // 4 < len(words) else i + target // 4
        res.append(Word(e, where, link, e >> 28 != 14, undefined))
    return res


def is_undefined(op):
    return op.undefined if isinstance(op, Word) else op == '?'


def condition(op):
    """What the condition of the operation is, equal for equal conditions"""
    if isinstance(op, Word):
        return op.encoding >> 28
    name = op if isinstance(op, str) else op[0]
    return 'ne' in name, 'eq' in name


def is_conditional(op):
    if isinstance(op, Word):
        return op.conditional
    name = op if isinstance(op, str) else op[0]
    return name.split()[0].endswith(('ne', 'eq'))


def branch(op):
    """(target index or 'out', with link) or None"""
    if isinstance(op, Word):
        return None if op.target is None else (op.target, op.link)
    if not isinstance(op, str):
        return op[1], op[0].startswith('bl')
    if op in ('mov', 'movne', 'moveq', 'cmpne', '?'):
        return None
    return 'out', op.split()[0].startswith('bl')


def text(ops):
    return ['%08x' % o.encoding if isinstance(o, Word) else o if isinstance(o, str) else '%s @%d' % o for o in ops]


def transfers(ops):
    """
    index -> (indices it goes to when it executes, indices it goes to when its condition is not met or None).
    'end' is the end of the program, 'out' an address that is not known.
    """
    live = [i for i, o in enumerate(ops) if not is_undefined(o)]
    res = {}
    for k, i in enumerate(live):
        nxt = live[k + 1] if k + 1 < len(live) else 'end'
        b = branch(ops[i])
        if b is None:
            taken = {nxt}
        else:
            taken = {b[0]} | ({nxt} if b[1] else set())
        res[i] = (taken, {nxt} if is_conditional(ops[i]) else None)
    return res, (live[0] if live else 'end')


def examples(t, run, longest=None):
    """The programs of the repository: the runs of words from one of their addresses on, and the whole"""
    name = t.pick(real.PROGRAMS)
    words = real.words(name)
    start = t.choose(len(words) + 1)
    if start == len(words):
        # the sections one after the other
        parts = [words]
    else:
        parts = real.windows(name, start, longest or (6 if t.tier == 'quick' else 16))
    for part in parts:
        ops = given_words([e for _, e in part])
        if not any(o.target not in (None, 'out') and ops[o.target].undefined for o in ops):     # a branch into data
            run(ops)
