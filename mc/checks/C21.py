"""A solution file cut at any byte, or that is not one, is never accepted."""
LEVEL = 'fault_enumeration'
RULE = 'one case for each byte at which each file may end, or wrong identification byte; distinct: different file and cut'
from mc.core import Harness
from mc.common import scratch
from mc.programs import CODE, inst, BASE, encodings
from mc.checks.C20 import write

RULE = 'every byte prefix of every solution file in the bounds; non trivial: distinct (file, cut) pair'


def accepted(path):
    from semantic_codec.solution.solution_io import SolutionReader
    try:
        return SolutionReader().read(path)
    except Exception:
        return None


def crash(t):
    """The writer is stopped after any number of bytes reached the file"""
    n = t.int(0, 4 if t.tier == 'thorough' else 3)
    sizes = [t.int(1, 3) for _ in range(n)]
    place = [t.int(0, s - 1) for s in sizes]
    codes = [CODE['nop'], 0, 0xffffffff]
    lists = [codes[:s] for s in sizes]
    addrs = [0, 0x10000, 4, 8][:n]
    with scratch():
        write(t, lists, place, addrs, True)
        data = open('x.sol', 'rb').read()
        t.check(accepted('x.sol') is not None, 'the complete file is not accepted')
        for cut in range(len(data)):
            with open('y.sol', 'wb') as f:
                f.write(data[:cut])
            res = accepted('y.sol')
            if res is not None:
                t.check(False, 'a file of {} bytes cut at byte {} is accepted: {}', len(data), cut, encodings(res[1]))
            t.step(1)
            t.state(tuple(sizes), tuple(place), cut)
        whole = accepted('x.sol')
        t.equal(encodings(whole[1]), {a: v[:p + 1] for a, v, p in zip(addrs, lists, place)}, 'the complete file, read again')
    t.sample(candidates=sizes, originals=place, bytes=len(data))


def large(t):
    """Files of thousands of bytes, cut in steps of any of 5 widths around the end and everywhere else"""
    n, m = t.pick([(40, 3), (2, 70), (1, 257)] + ([(300, 2), (3, 260)] if t.tier == 'thorough' else []))
    place = t.pick(sorted({0, m // 2, m - 1}))
    addrs = [BASE + 4 * i for i in range(n)]
    lists = [[(CODE['add r0,r0,r1'] + 0x100 * (a & 0xf)) ^ k for k in range(m)] for a in addrs]
    with scratch():
        write(t, lists, [place] * n, addrs, True)
        data = open('x.sol', 'rb').read()
        t.check(accepted('x.sol') is not None, 'the complete file is not accepted')
        cuts = sorted(set(range(0, len(data), 1 if t.tier == 'thorough' and n < 100 else 7)) | set(range(max(0, len(data) - 20), len(data))))
        for cut in cuts:
            with open('y.sol', 'wb') as f:
                f.write(data[:cut])
            t.check(accepted('y.sol') is None, 'a file of {} bytes cut at byte {} is accepted', len(data), cut)
            t.step(1)
            t.state(n, m, place, cut)
    t.sample(addresses=n, candidates=m, bytes=len(data), cuts=len(cuts))


def wrong_kind(t):
    """Any change of the identification of the file makes it something else"""
    byte = t.int(0, 7)
    with scratch():
        write(t, [[CODE['nop']]], [0], [BASE], True)
        data = bytearray(open('x.sol', 'rb').read())
        for value in range(256):
            bad = bytearray(data)
            if bad[byte] == value:
                continue
            bad[byte] = value
            open('y.sol', 'wb').write(bytes(bad))
            t.check(accepted('y.sol') is None, 'byte {} of the identification is {} and the file is accepted', byte, value)
            t.step(1)
            t.state(byte, value)
    t.sample(byte=byte)


HARNESSES = [Harness('every-cut', crash, 'every solution of 0..3 (thorough 4) addresses with 1..3 candidates and the original at any '
                     'place x every byte at which the file may end'),
             Harness('large', large, 'files of 1..40 (thorough 300) addresses with up to 257 (260) candidates x original at 3 places x one in seven '
                     '(thorough every) bytes at which the file may end, and each of the last 20', cpu_limit=200),
             Harness('identification', wrong_kind, 'every other value of each byte of the magic word')]
