"""Building blocks shared by the harnesses: data patterns, independent oracles, scratch directories."""
import os
import shutil
import tempfile
from contextlib import contextmanager


def index_patterns(n_bits):
    """
    Bit vectors that tell every input bit position apart: pattern b has bit i set iff bit b of i is set, plus all zeros
    and all ones.  An output bit of a routing of bits (and constants) is determined by its values on these.
    """
    width = max(1, (max(1, n_bits) - 1).bit_length())
    full = (1 << n_bits) - 1
    pats = [0, full]
    for b in range(width):
        # 2^b zeros and 2^b ones, repeated
        v = ((1 << (1 << b)) - 1) << (1 << b)
        have = 2 << b
        while have < n_bits:
            v |= v << have
            have *= 2
        v &= full
        pats.append(v)
        pats.append(v ^ full)
    return pats


def words_of(bits, n_words):
    return [(bits >> (32 * i)) & 0xffffffff for i in range(n_words)]


def chunks_of(words, size):
    """The stream of chunks of a list of words: bit 0 of word 0 first"""
    mask = (1 << size) - 1
    if 32 % size == 0:
        return [(w >> b) & mask for w in words for b in range(0, 32, size)]
    total = 0
    for i, w in enumerate(words):
        total |= (w & 0xffffffff) << (32 * i)
    n = len(words) * 32 // size
    return [(total >> (size * i)) & mask for i in range(n)]


@contextmanager
def scratch():
    """A private directory that is the current directory while the block runs"""
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix='mc_scratch_', dir=_base())
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def _base():
    return '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None


def permutations(items):
    items = list(items)
    if len(items) <= 1:
        return [items]
    res = []
    for i in range(len(items)):
        for p in permutations(items[:i] + items[i + 1:]):
            res.append([items[i]] + p)
    return res
