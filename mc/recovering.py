"""Small corrupted programs and the recovery loop of the recovery tool"""
from mc.programs import CODE, inst, BASE, encodings


def originals(t, alphabet, n):
    return [t.pick(alphabet) for _ in range(n)]


def corrupted(t, names, alphabet, most):
    """Candidate lists that contain the original, with any set of at most `most` wrong candidates, original first or last"""
    res = []
    last = t.bool()
    for x in names:
        wrong = t.subset([a for a in alphabet if a != x], most)
        res.append(wrong + [x] if last else [x] + wrong)
    return res


def one_function(n, base=BASE):
    return {base: (base, base + 4 * (n - 1))}


def collect(names, addrs=None):
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    c = MetadataCollector()
    c.collect([inst(x, addrs[i] if addrs else BASE + 4 * i) for i, x in enumerate(names)])
    return c


def build(lists, addrs=None):
    addrs = addrs or [BASE + 4 * i for i in range(len(lists))]
    return {a: [inst(x, a) for x in v] for a, v in zip(addrs, lists)}
