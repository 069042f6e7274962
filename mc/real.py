"""The programs that the repository keeps as examples, read here without its readers"""
import functools
from mc import core

PROGRAMS = ['helloworld_elfiodissasembly', 'qsort_small', 'crc32', 'fft', 'dijkstra_small', 'bitcount', 'basicmath_small', 'sha']


@functools.lru_cache(None)
def words(name):
    """[(address, encoding)]"""
    res, code = {}, False
    for line in open('%s/tests/data/%s.disam' % (core.REPO, name)):
        line = line.strip()
        if line.startswith('.'):
            code = line[1:] in ('init', 'plt', 'text', 'fini')
        elif line and code:
            a, e = line.split(';')[:2]
            res[int(a, 16)] = int(e, 16)
    return sorted(res.items())


@functools.lru_cache(None)
def distinct():
    """Every encoding of the programs once, with the address of the first"""
    res = {}
    for name in PROGRAMS:
        for a, e in words(name):
            res.setdefault(e, a)
    return sorted((a, e) for e, a in res.items())


@functools.lru_cache(None)
def _engine():
    import capstone
    return capstone.Cs(capstone.CS_ARCH_ARM, capstone.CS_MODE_ARM)


def undefined(e):
    return not list(_engine().disasm(e.to_bytes(4, 'little'), 0))


def windows(name, start, longest):
    """The runs of words that follow each other in memory, from one of them on"""
    w = words(name)
    for n in range(1, longest + 1):
        part = w[start:start + n]
        if len(part) < n or part[-1][0] - part[0][0] != 4 * (n - 1):
            return
        yield part


@functools.lru_cache(None)
def functions(name):
    """[[(address, encoding)]], by the addresses where something has a name"""
    starts, listed = set(), False
    for line in open('%s/tests/data/%s.disam' % (core.REPO, name)):
        line = line.strip()
        if line.startswith('.'):
            listed = line == '.functions'
        elif line and listed:
            starts.add(int(line.split(';')[0], 16))
    res = []
    for a, e in words(name):
        if a in starts or not res:
            res.append([])
        res[-1].append((a, e))
    return res


def parts(t, lengths):
    """The runs of some lengths from one of the addresses of a program on, or the whole program: [(address, encoding)]"""
    name = t.pick(PROGRAMS)
    w = words(name)
    start = t.choose(len(w) + 1)
    if start == len(w):
        return [list(w)]
    return [p for p in windows(name, start, max(lengths)) if len(p) in lengths]


def some(part):
    return ['%08x' % e for _, e in part] if len(part) < 20 else 'the whole program at %#x of %d words' % (part[0][0], len(part))
