"""Reading a program from the disassembly of an ELF file"""
from mc.core import Harness
from mc.common import scratch
from mc.programs import CODE

WORDS = [CODE['push {r4,lr}'], CODE['nop'], CODE['undefined'], 0x0000000a]


def write(sections, functions, style):
    """sections: [(name, [(address, encoding) or text])]"""
    out = ['.functions']
    for a, n in functions:
        out.append('%s;%s' % (style['hex'](a), n))
    for name, lines in sections:
        if style['blank']:
            out.append('')
        out.append('.' + name)
        for x in lines:
            out.append('%s;%s%s' % (style['hex'](x[0]), style['hex'](x[1]), style.get('tail', ';mnemonic;operands')) if isinstance(x, tuple) else x)
            if style['blank'] == 2:
                out.append('   ')
    with open('program.disam', 'w') as f:
        f.write('\n'.join(out) + ('\n' if style['end'] else ''))


def compare(t, sections, functions, style):
    from semantic_codec.architecture.disassembler_readers import ElfioTextDisassembleReader
    from semantic_codec.metadata.probabilistic_rules.rules import from_functions_to_list_and_addr
    code = [x for n, lines in sections if n.split('.')[0] in ('init', 'plt', 'text', 'fini') for x in lines if isinstance(x, tuple)]
    names = {}
    for a, n in functions:
        names[a] = n                  # several symbols at one address: the last one
    members = {a: [] for a in names}
    current = None
    for a, e in code:
        current = a if a in names else current
        if current is not None:
            members[current].append((a, e))
    with scratch():
        write(sections, functions, style)
        r = ElfioTextDisassembleReader('program.disam')
        for turn in (1, 2):            # reading again gives the same
            fns, ins = r.read() if turn == 1 else (r.read_functions(), r.read_instructions())
            t.equal([(i.address, i.encoding) for i in ins], code, 'instructions of %s' % (sections,))
            t.equal([f.name for f in fns], [names[a] for a in names], 'functions of %s' % (sections,))
            for f, a in zip(fns, names):
                t.equal([(i.address, i.encoding) for i in f.instructions], members[a], 'instructions of the function at %#x' % a)
                t.equal(f.length_in_bytes(), 4 * len(members[a]), 'length of the function at %#x' % a)
                t.equal((f.start_addr(), f.final_addr()), (members[a][0][0], members[a][-1][0]) if members[a] else (0, 0),
                        'first and last address of the function at %#x' % a)
                t.equal(str(f), names[a], 'name')
    t.equal([(i.address, i.encoding) for i in r.instructions], code, 'instructions remembered by the reader')
    t.equal([f.name for f in r.functions], [f.name for f in fns], 'functions remembered by the reader')
    # the program the recovery works on
    listed, limits = from_functions_to_list_and_addr(fns)
    t.equal([(i.address, i.encoding) for i in listed], sorted((x for a in names for x in members[a]), key=lambda x: x[0]),
            'instructions of the functions')
    t.equal(limits, {v[0][0]: (v[0][0], v[-1][0]) for v in members.values() if v}, 'limits of the functions')
    t.step(len(code) + 2)
    t.state(tuple((n, tuple(map(str, l))) for n, l in sections), tuple(functions))
    t.sample(sections=[(n, len(l)) for n, l in sections], functions=functions)


PLAIN = {'hex': lambda v: '0x%x' % v, 'blank': 0, 'end': True}


def layout(t):
    """Consecutive instructions over the sections, functions that start at any of them or elsewhere"""
    n = t.int(0, 4)
    names = ['init', 'plt', 'text', 'fini', 'data', 'rodata']
    base = t.pick([0x10000, 0xfffffff0, 0])
    sections, i = [], 0
    while i < n:
        k = t.int(1, n - i)
        name = t.pick([s for s in names if not sections or s != sections[-1][0]] if n < 4 or t.tier == 'thorough' else ['text', 'data', 'plt'])
        sections.append((name, [(base + 4 * j, WORDS[j % len(WORDS)]) for j in range(i, i + k)]))
        i += k
    starts = t.subset(range(n))
    functions = [(base + 4 * k, 'f%d' % k) for k in starts]
    code = {x[0] for s, l in sections for x in l if s not in ('data', 'rodata')}
    for a, _ in functions:
        if a not in code and t.tier == 'quick' and n == 4:
            t.prune()
    extra = t.pick(['', 'alias', 'elsewhere', 'unsorted'])
    if extra == 'alias' and functions:
        functions.append((functions[0][0], '$a'))
    if extra == 'elsewhere':
        functions.insert(0, ((base - 0x100) & 0xfffffff0, '$d'))
    if extra == 'unsorted':
        if len(functions) < 2:
            t.prune()
        functions.reverse()
    compare(t, sections, functions, PLAIN)


def gaps(t):
    """One function, then the addresses jump"""
    first = t.int(0, 2)
    second = t.int(0, 2)
    gap = t.pick([4, 0x100, 0x10000])
    lines = [(0x10000 + 4 * i, WORDS[i]) for i in range(first)]
    at = 0x10000 + 4 * first + gap
    lines2 = [(at + 4 * i, WORDS[-1 - i]) for i in range(second)]
    apart = t.bool()
    sections = [('text', lines), ('fini', lines2)] if apart else [('text', lines + lines2)]
    compare(t, sections, [(0x10000, 'a'), (at, 'b')], PLAIN)


def notation(t):
    """Blank lines, upper case and padded numbers, lines that are not instructions, no end of line"""
    style = {'hex': t.pick([lambda v: '0x%x' % v, lambda v: '0x%08X' % v, lambda v: '%x' % v]),
             'blank': t.int(0, 2), 'end': t.bool()}
    n = t.int(1, 3)
    style['tail'] = t.pick([';mnemonic;operands', '', ';', ';push;{r4, lr}; comment']) if n < 3 else ';mnemonic;operands'
    junk = t.pick([None, 'garbage', 'two words'])
    at = t.int(0, n) if junk else 0
    base = t.pick([0x10000, 0]) if n < 3 else 0x10000
    lines = [(base + 4 * j, t.pick(WORDS if n < 2 else WORDS[1:] if n < 3 else WORDS[1:3])) for j in range(n)]
    if junk:
        lines.insert(at, junk)
    compare(t, [(t.pick(['text', 'init', 'comment']), lines)], [(base, t.pick(['main', '$a', '_ZN3fooEv', 'operator new']))], style)


def named(t):
    """Sections whose names have several parts or begin like the code sections"""
    names = ['text.unlikely', 'text.startup', 'plt.got', 'data.text', 'rodata.plt', 'debug_init', 'text', 'symtab']
    sections, i = [], 0
    for _ in range(t.int(1, 3)):
        k = t.int(1, 2)
        sections.append((t.pick([n for n in names if not sections or n != sections[-1][0]]),
                         [(0x10000 + 4 * j, WORDS[j % len(WORDS)]) for j in range(i, i + k)]))
        i += k
    compare(t, sections, [(0x10000 + 4 * j, 'f%d' % j) for j in t.subset([0, 1, i - 1] if i > 2 else range(i))], PLAIN)


def examples(t):
    from mc import real
    from semantic_codec.architecture.disassembler_readers import ElfioTextDisassembleReader
    name = t.pick(real.PROGRAMS)
    fns, ins = ElfioTextDisassembleReader('%s/tests/data/%s.disam' % (real.core.REPO, name)).read()
    want = real.words(name)
    t.equal(sorted((x.address, x.encoding) for x in ins), want, 'words of %s' % name)
    t.equal([x for f in fns for x in f.instructions if not any(x is y for y in ins)], [], 'words of the functions of %s' % name)
    parts = sorted([(x.address, x.encoding) for x in f.instructions] for f in fns if f.instructions)
    t.equal(parts, real.functions(name), 'functions of %s' % name)
    t.step(len(want))
    t.state(name)
    t.sample(program=name, functions=len(parts), words=len(want))


HARNESSES = [Harness('layout', layout, '0..4 instructions in every split into sections of 6 kinds x every set of function starts, with '
                     'aliases, symbols elsewhere, unsorted symbols'),
             Harness('gaps', gaps, 'two functions with a gap between them'),
             Harness('notation', notation, '3 ways to write numbers x blank lines x lines that are no instructions x 1..3 instructions over 4 words (2: 3, 3: 2) x 4 texts after them x from 0 or not'),
             Harness('named', named, '1..3 sections of 1..2 instructions over 8 names of several parts x functions at any of 3 places'),
             Harness('examples', examples, 'the 8 programs of the repository')]
