"""Storing the packets of a program: the program as it is, and as it is without one packet in five"""
import io
import os
import runpy
import sys
from mc.core import Harness
from mc import core
from mc.common import scratch

PATTERNS = {'ones': lambda i: 0xffffffff, 'zeros': lambda i: 0, 'mixed': lambda i: (0x9e3779b1 * (i + 1)) & 0xffffffff,
            'code': lambda i: [0xe92d4010, 0xe3a00001, 0xe0811002, 0xe8bd8010, 0xffffffff][i % 5]}


def run(args):
    """Exit status of the program, None if it ends by itself"""
    saved, out, err = sys.argv, sys.stdout, sys.stderr
    sys.argv, sys.stdout, sys.stderr = ['store_packets.py'] + args, io.StringIO(), io.StringIO()
    try:
        runpy.run_path('%s/store_packets.py' % core.REPO, run_name='__main__')
        return None
    except SystemExit as e:
        return e.code
    finally:
        sys.argv, sys.stdout, sys.stderr = saved, out, err


def listing(functions):
    out = ['.functions'] + ['0x%x;%s' % (f[0][0], 'f%d' % i) for i, f in enumerate(functions)] + ['.text']
    for f in functions:
        out += ['0x%x;0x%x;word;' % x for x in f]
    return '\n'.join(out) + '\n'


def stream(data):
    """Bits of the bytes, the most significant of each one first"""
    return ''.join(format(b, '08b') for b in data)


def check(t, words, cuts, what, expected_name='out'):
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp
    program = [(0x8000 + 4 * i, w) for i, w in enumerate(words)]
    places = sorted({0} | {c for c in cuts if 0 < c < len(program)}) + [len(program)]
    with scratch():
        with open('program.disam', 'w') as f:
            f.write(listing([program[a:b] for a, b in zip(places, places[1:])]))
        before = open('program.disam').read()
        t.equal(run(['program.disam', expected_name]), None, 'exit of storing %s' % what)
        t.equal(sorted(os.listdir('.')), sorted(['program.disam', expected_name, expected_name + 'a100']), 'files after storing %s' % what)
        t.equal(open('program.disam').read(), before, 'the disassembly after storing %s' % what)
        whole = open(expected_name + 'a100', 'rb').read()
        kept = open(expected_name, 'rb').read()
    t.check(whole == b''.join(w.to_bytes(4, 'little') for w in words), 'the whole program is not stored as it is, {}', what)
    t.equal(len(kept), len(whole), 'size of what is stored without the lost packets, %s' % what)
    packets = (len(words) + 3) // 4             # of 16 bytes, the last may not be full
    order = [int(x) for x in build_2d_interleave_sp(packets, flat=True)]
    t.equal(sorted(order), list(range(packets)), 'order of %d packets' % packets)
    lost = set(range(packets // 5))             # up to 20%
    a, b = stream(whole), stream(kept)
    for k in range(len(words) * 16):            # chunks of two bits, one for each packet in the order
        old, new = a[2 * k:2 * k + 2], b[2 * k:2 * k + 2]
        if order[k % packets] not in lost:
            t.check(old == new, 'chunk {} belongs to packet {}, which is kept, and changes from {} to {}: {}', k, order[k % packets], old, new, what)
        else:
            t.check(all(not (x == '0' and y == '1') for x, y in zip(old, new)), 'chunk {} of a lost packet goes from {} to {}: {}', k, old, new, what)
            # the prediction of chunks at the end of a word is a known finding of C03
            t.check(new[0] == '0' or k % 16 == 15, 'chunk {} of the lost packet {} is still there: {}', k, order[k % packets], what)
    t.step(len(words))
    t.state(len(words), kept)
    t.sample(words=len(words), packets=packets, lost=len(lost))


def programs(t):
    n = t.int(1, 48 if t.tier == 'quick' else 130)
    kind = t.pick(sorted(PATTERNS))
    functions = t.pick(['one', 'two', 'many'])
    cuts = {'one': [], 'two': [n // 2], 'many': list(range(1, n, 3))}[functions]
    check(t, [PATTERNS[kind](i) for i in range(n)], cuts, '%d words, %s, %s functions' % (n, kind, functions))


def large(t):
    n = t.pick([79, 80, 81, 255, 256, 257, 300, 340] + ([511, 512, 513, 700, 1024] if t.tier == 'thorough' else []))
    kind = t.pick(['ones', 'mixed'])
    check(t, [PATTERNS[kind](i) for i in range(n)], [n // 3], '%d words, %s' % (n, kind), t.pick(['out', 'out.bin']))


def one_bit(t):
    """Any single bit of the program"""
    n = t.pick([20, 21, 24])
    bit = t.int(0, n * 32 - 1)
    words = [0] * n
    words[bit // 32] = 1 << bit % 32
    check(t, words, [], '%d words, only bit %d is set' % (n, bit))


def refused(t):
    """Nothing is stored when there is nothing to store"""
    kind = t.pick(['no arguments', 'no output', 'another argument', 'no source', 'a directory', 'not a listing', 'words that are none', 'again'])
    with scratch():
        with open('good.disam', 'w') as f:
            f.write(listing([[(0x8000 + 4 * i, 0xe3a00000 + i) for i in range(24)]]))
        with open('bad.disam', 'w') as f:
            f.write('.functions\n0x8000;f\n.text\n0x8000;hello;x;y\n' if kind == 'words that are none' else '.functions\nhello\n.text\nworld\n')
        os.mkdir('d')
        before = sorted(os.listdir('.'))
        args = {'no arguments': [], 'no output': ['good.disam'], 'another argument': ['good.disam', 'out', 'x'], 'no source': ['none.disam', 'out'],
                'a directory': ['d', 'out'], 'not a listing': ['bad.disam', 'out'], 'words that are none': ['bad.disam', 'out'],
                'again': ['good.disam', 'out']}[kind]
        if kind == 'again':             # what was stored before is replaced
            for name in ('out', 'outa100'):
                with open(name, 'wb') as f:
                    f.write(b'old' * 1000)
            t.equal(run(args), None, 'exit')
            t.equal([os.path.getsize('out'), os.path.getsize('outa100')], [96, 96], 'sizes of what replaces older files')
        else:
            t.equal(run(args), 1, 'exit with %s' % kind)
            t.equal(sorted(os.listdir('.')), before, 'files with %s' % kind)
    t.step(1)
    t.state(kind)
    t.sample(refused=kind)


def examples(t):
    from mc import real
    names = real.PROGRAMS
    name = names[t.choose(len(names))]
    words = [e for a, e in real.words(name)]
    most = 200 if t.tier == 'quick' else 700
    start = t.pick([0, 1]) * (len(words) // 2)
    part = words[start:start + most + t.int(0, 3)]
    check(t, part, [len(part) // 2], '%s from word %d' % (name, start))


HARNESSES = [Harness('programs', programs, 'programs of 1..48 (thorough 130) words x 4 contents x one, two or many functions'),
             Harness('large', large, 'programs of 79..340 (thorough 1024) words', cpu_limit=300),
             Harness('one-bit', one_bit, 'programs of 20, 21 and 24 words with a single bit set, any one'),
             Harness('refused', refused, '7 ways of having nothing to store, and storing over older files'),
             Harness('examples', examples, 'parts of the 8 example programs of the repository', cpu_limit=300)]
