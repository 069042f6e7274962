"""Distances from a write of a storage to its first read."""
from mc.core import Harness
from mc.programs import CODE, inst, BASE
from mc.stubs import Stub


def expected(program):
    dist = {}
    valid = [(i.storages_read(), i.storages_written()) for i in program if not i.ignore]
    for i, (_, w) in enumerate(valid):
        for s in set(w):
            for j in range(i + 1, len(valid)):
                if s in valid[j][0]:
                    dist.setdefault(s, []).append(j - i - 1)
                    break
                if s in valid[j][1]:
                    break
    return dist


def check_distances(t, program, what):
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    want = expected(program)
    c = MetadataCollector()
    c.collect(program)
    t.equal(dict(c.storage_min_dist), {s: min(d) for s, d in want.items()}, 'shortest distances of %s' % (what,))
    t.equal(dict(c.storage_max_dist), {s: max(d) for s, d in want.items()}, 'longest distances of %s' % (what,))
    got = dict(c.storage_mean_dist)
    t.equal(sorted(got), sorted(want), 'storages with a mean distance of %s' % (what,))
    for s, d in want.items():
        t.check(abs(got[s] - sum(d) / len(d)) < 1e-9, 'mean distance of {} in {}: {}, expected {}', s, what, got[s], sum(d) / len(d))
    t.step(len(program))
    t.state(tuple((s, tuple(d)) for s, d in sorted(want.items())), len(program))
    return want


def streams(t):
    """One storage, every stream of reads, writes, both, none and ignored instructions"""
    s = t.pick([0, 16, 19] if t.tier == 'quick' else [0, 5, 16, 17, 19])
    kinds = t.seq(['', 'w', 'r', 'rw', 'x'], 0, 7 if t.tier == 'quick' else 8)
    program = [Stub(i, BASE + 4 * i, read=[s] if 'r' in k else [], written=[s] if 'w' in k else [], undefined=k == 'x')
               for i, k in enumerate(kinds)]
    want = check_distances(t, program, (s, kinds))
    t.sample(storage=s, stream=kinds, distances=want.get(s))


def two_storages(t):
    kinds = t.seq([(r, w) for r in ([], [3], [3, 4]) for w in ([], [3], [4], [4, 3])], 0, 4 if t.tier == 'quick' else 5)
    program = [Stub(i, BASE + 4 * i, read=r, written=w) for i, (r, w) in enumerate(kinds)]
    want = check_distances(t, program, kinds)
    t.sample(stream=kinds, distances=want)


def real(t):
    names = t.seq(['add r0,r0,r1', 'mov r0,#1', 'ldr r0,[r1]', 'str r0,[r1]', 'push {r4,lr}', 'sub r1,r1,#1', 'bne -8'], 0,
                  4 if t.tier == 'quick' else 5)
    want = check_distances(t, [inst(x, BASE + 4 * i) for i, x in enumerate(names)], names)
    t.sample(program=names, distances=want)


def examples(t):
    from mc import real
    for part in real.parts(t, (2, 3, 5, 8, 13) if t.tier == 'quick' else range(2, 33)):
        check_distances(t, [inst(e, a) for a, e in part], real.some(part))


HARNESSES = [Harness('one-storage', streams, 'every stream of 0..7 (thorough 8) instructions that read, write, read and write, do '
                     'neither or are ignored, for 3 (5) storages'),
             Harness('two-storages', two_storages, 'every stream of 0..4 (5) instructions over two storages and 12 access sets'),
             Harness('real-instructions', real, 'every program of 0..4 (5) over 7 real instructions'),
             Harness('examples', examples, 'the 8 programs of the repository, and every run of 2, 3, 5, 8 or 13 (thorough 2..32) of their words')]
