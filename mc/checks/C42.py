"""The recovery tool, from end to end: whatever is lost, the stored solutions contain the program"""
import glob
import re
import sys
from mc.core import Harness
from mc.common import scratch
from mc.programs import CODE, inst, BASE, encodings
from mc.recovering import originals, corrupted, collect


class Given(object):
    """A corruptor that leaves the given candidates"""
    def __init__(self, lists):
        self.lists = [[CODE.get(x, x) for x in v] for v in lists]

    def corrupt(self, program):
        self.seen = encodings(program)
        return {a: [inst(e, a) for e in v] for a, v in zip(program, self.lists)}


class Recorder(object):
    def __init__(self, corruptor):
        self.corruptor = corruptor

    def corrupt(self, program):
        self.seen = encodings(program)
        res = self.corruptor.corrupt(program)
        self.lists = [list(v) for v in (encodings(res)[a] for a in self.seen)]
        return res


def report_of(path):
    text = open(path).read()
    m = re.findall(r'ERRORS: (\d+) -- LOSING: (\d+) -- TIDE: (\d+) --RECOVERED: (\d+)', text)
    return [int(x) for x in m[-1]] if m else None


def upto(v, e):
    return v[:v.index(e) + 1]


def listed(path):
    """The candidates that a report lists, per address with more than one"""
    res = {}
    for a, e in re.findall(r'0x([0-9a-f]+) (?:--|\+\+) \[(\d+)\]', open(path).read()):
        res.setdefault(int(a, 16), []).append(int(e))
    return res


def removed(v):
    """Takes away the candidates that scored nothing, and those under 1 when another one has 1"""
    scores = [x.score() for x in v]
    keep = [x for x, s in zip(v, scores) if s != 0 and not (s < 1 and 1 in scores)]
    res = len(v) - len(keep)
    v[:] = keep
    return res


def stable(names, first, fns):
    """What is left when recovering over and over takes nothing more away"""
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator, probabilistic_rules
    addrs = list(first)
    collector = collect(names, addrs)
    program = {a: [inst(e, a) for e in v] for a, v in first.items()}
    while True:
        r = ProbabilisticRecuperator(collector, program, functions=fns)
        r.passes = 1
        r.recover()
        for v in program.values():
            if len(v) > 1:
                v.sort(key=lambda x: x.score(), reverse=True)
        if sum([removed(v) for v in program.values()]) == 0:
            break
    for v in program.values():
        for x in v:
            x.score_function = probabilistic_rules
        v.sort(key=lambda x: x.score(), reverse=True)
    return program


def run(t, functions, corruptor, settled=False):
    """functions: the instructions of each function, one after the other"""
    from semantic_codec.architecture.functions import ElfFunction
    elf, a = [], BASE
    for i, names in enumerate(functions):
        f = ElfFunction('f%d' % i)
        for x in names:
            f.instructions.append(inst(x, a))
            a += 4
        elf.append(f)
    what = '%s' % (functions,)
    program, first, after, final = recovery(t, elf, corruptor, what)
    if settled:
        fns, a = {}, BASE
        for names in functions:
            fns[a] = (a, a + 4 * (len(names) - 1))
            a += 4 * len(names)
        end = {a: [x.encoding for x in v] for a, v in stable(sum(functions, []), first, fns).items() if len(v) > 1}
        t.equal(after, end, '%s, candidates %s: candidates when nothing more can be taken away' %
                (what, list(first.values())))
    t.state(tuple(functions[0]), tuple(len(v) for v in first.values()), tuple(tuple(v) for v in encodings(final).values()))
    t.sample(functions=functions, candidates=[len(v) for v in first.values()], stored=sum(len(v) for v in final.values()))


def recovery(t, elf, corruptor, what):
    """The program, the candidates it was corrupted to, those when nothing more is taken away and the stored solution"""
    from recover_program import run_recovery
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    from semantic_codec.solution.solution_io import SolutionReader
    program = {x.address: x.encoding for f in elf for x in f.instructions}
    judged = [(x.score(), x.ignore) for f in elf for x in f.instructions]
    with scratch():
        out = sys.stdout
        run_recovery(elf, corruptor, ProbabilisticRecuperator)
        t.check(sys.stdout is out, '{}: the standard output is not that of before', what)
        t.equal({x.address: x.encoding for f in elf for x in f.instructions}, program, 'the given program')
        t.equal([(x.score(), x.ignore) for f in elf for x in f.instructions], judged, '%s: scores of the given program' % what)
        t.equal(corruptor.seen, {a: [e] for a, e in program.items()}, 'program that is corrupted')
        first = dict(zip(corruptor.seen, corruptor.lists))
        true1, initial = SolutionReader().read('initial_solution.sol')
        true2, final = SolutionReader().read('final_solution.sol')
        reports = [report_of('corrupted_program.txt'), report_of('instructions1.txt')]
        numbered = sorted(int(x[12:-4]) for x in glob.glob('instructions*.txt'))
        after = listed('instructions%d.txt' % numbered[-2])
    for name, got in (('initial', true1), ('final', true2)):
        t.equal({k: [x.encoding for x in v] for k, v in got.items()}, {a: [e] for a, e in program.items()},
                '%s: program of the %s solution' % (what, name))
    t.equal(encodings(initial), {a: upto(v, program[a]) for a, v in first.items()}, '%s: initial solution' % what)
    for a, v in encodings(final).items():
        rest = list(first[a])
        for e in v:
            t.check(e in rest, '{}: candidate {:x} of {:x} was not there before', what, e, a)
            rest.remove(e)
    damaged = sum(len(v) > 1 for v in first.values())
    for r in reports:
        t.check(r is not None and r[0] == damaged and r[0] == sum(r[1:]), '{} with {} damaged addresses: the report has {} errors, '
                '{} lost, {} tied, {} recovered', what, damaged, *(r or [None] * 4))
    t.step(len(program))
    return program, first, after, final


def real(t):
    """The programs of the repository, each of their packets lost"""
    from mc.core import REPO
    from semantic_codec.architecture.disassembler_readers import ElfioTextDisassembleReader
    from semantic_codec.corruption.corruptors import PacketCorruptor
    name = t.pick(REAL if t.tier == 'thorough' else REAL[:1])
    functions = ElfioTextDisassembleReader('%s/tests/data/%s.disam' % (REPO, name)).read_functions()
    n = len({x.address for f in functions for x in f.instructions})
    count = max(8, n // 32)     # with fewer packets each one lost leaves thousands of candidates per address
    k = t.int(0, count - 1)
    program, first, after, final = recovery(t, functions, Recorder(PacketCorruptor(count, n, None, [k], 2)), '%s, packet %d lost' % (name, k))
    for a, v in encodings(final).items():
        t.check(program[a] in v, '{}, packet {} lost: the instruction of {:x} is not stored', name, k, a)
    fns = {min(a): (min(a), max(a)) for a in ([x.address for x in f.instructions] for f in functions) if a}
    end = {a: [x.encoding for x in v] for a, v in stable([program[a] for a in sorted(program)], first, fns).items() if len(v) > 1}
    t.equal(after, end, '%s, packet %d lost: candidates when nothing more can be taken away' % (name, k))
    t.state(name, tuple(sorted((a, len(v)) for a, v in final.items())))
    t.sample(program=name, lost=k, candidates=sum(len(v) for v in first.values()), stored=sum(len(v) for v in final.values()))


REAL = ['helloworld_elfiodissasembly', 'qsort_small', 'crc32', 'fft', 'dijkstra_small', 'bitcount', 'basicmath_small', 'sha']

SMALL = ['push {r4,lr}', 'add r0,r0,r1', 'pop {r4,pc}', 'cmp r1,#0', 'bne -8']


def candidates(t):
    big = t.tier == 'thorough'
    n = t.int(1, 3 if big else 2)
    alphabet = SMALL + ['ldr r0,[r1]'] if big and n < 3 else SMALL
    alphabet = alphabet + ['cmp r1,#0 *'] if n < 3 else alphabet
    names = originals(t, alphabet, n)
    wrong = alphabet + ['undefined'] if n < 3 else alphabet
    run(t, [names], Given(corrupted(t, names, wrong, 2 if n < 3 else 1)), True)


# operations and conditions
OPERATIONS = [0x00800001, 0x00400001, 0x00000001, 0x01800001, 0x00200001, 0x00600001, 0x00a00001]
CONDITIONS = [0xe0000000, 0x00000000, 0x10000000, 0x20000000, 0x30000000, 0xa0000000, 0xb0000000]


def chain(t):
    """Each address shares a wrong candidate with the next one, so that a pass takes away the candidates of one address only"""
    n = t.int(2, 7 if t.tier == 'quick' else 9)
    ops, conds = t.pick([(1, 1), (1, 0), (0, 1)])
    words = [CONDITIONS[i * conds] | OPERATIONS[i * ops] for i in range(n)]
    if t.bool():
        words = words[::-1]
    # the last one has no other candidate, or an undecodable one
    end = [0xffffffff] if t.bool() else []
    step, first = t.pick([1, -1]), t.bool()
    lists = []
    for i, e in enumerate(words):
        other = [words[i + step]] if 0 <= i + step < n else end
        lists.append(other + [e] if first else [e] + other)
    cut = t.pick([n, 1])
    run(t, [x for x in (words[:cut], words[cut:]) if x], Given(lists), True)


MAIN = ['push {r4,lr}', 'cmp r1,#0', 'addne r0,r0,r1', 'bne -8', 'str r0,[r1]', 'bl -8', 'pop {r4,pc}', 'bx lr']


def packets(t):
    from semantic_codec.corruption.corruptors import PacketCorruptor
    big = t.tier == 'thorough'
    n = t.int(2, 8)
    names = MAIN[:n - 1] + ['pop {r4,pc}']
    cut = t.pick([n, n // 2])
    size = t.pick([1, 2])
    count = t.pick([16, 20] if not big else [16, 20, 32])
    k = t.int(1, 2) if size == 1 else 1
    lost = t.arrangement(range(count), k) if k == 1 else [t.pick([0, 5, count - 1]), t.pick([1, 7, count - 2])]
    functions = [x for x in (names[:cut], names[cut:]) if x]
    run(t, functions, Recorder(PacketCorruptor(count, n, None, lost, size)))


def random_bits(t):
    from mc.core import ControlledRandom
    from semantic_codec.corruption.corruptors import RandomCorruptor
    n = t.pick([2, 3])
    names = ['push {r4,lr}', 'add r0,r0,r1', 'pop {r4,pc}'][3 - n:]
    with ControlledRandom(t, budget=5 if t.tier == 'thorough' else 4, wide=4):
        run(t, [names], Recorder(RandomCorruptor(t.pick([1.0, 50.0, 100.0]), t.int(1, 2), False)))


HARNESSES = [
    Harness('real', real, 'a program of the repository x every one of its 8 packets of 2 bit cells lost', cpu_limit=200, split=8,
            tiers=('quick',)),
    Harness('real-all', real, '8 programs of the repository x every one of their 8 to 24 packets of 2 bit cells lost', cpu_limit=200, split=9,
            tiers=('thorough',)),
    Harness('candidates', candidates, 'every program of 1 or 2 (thorough 3) instructions over 6 (7) kinds, two of them with the same text, x every set of at most 2 (1 of 3) wrong '
            'candidates per address, undecodable ones too, original first or last'),
    Harness('chain', chain, 'programs of 2..7 (thorough 9) instructions in one or two functions, each of which has the next or the previous one, in its operation, in its condition or in both, as the wrong candidate'),
    Harness('packets', packets, 'programs of 2..8 instructions in one or two functions x 16 or 20 (thorough 32) packets of 1 or 2 bits x every '
            'packet lost, or two of them'),
    Harness('random', random_bits, 'programs of 2 or 3 instructions x 3 percentages x 1 or 2 bits x every answer of the first 4 (5) random draws'),
]
