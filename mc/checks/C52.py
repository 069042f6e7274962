"""The report of a recovery: verdict of each address, order of its candidates, and totals"""
import re
import sys
from mc.core import Harness
from mc.common import scratch
from mc.programs import CODE, inst, BASE

RULES = ['pa', 'pb']
CLOSE = 2.0 ** -30
NAMES = ['cmp r1,#0', 'cmp r1,#0 *', 'add r0,r0,r1', 'zero']
TEXT = {CODE[x]: ('cmp' if x.startswith('cmp') else x) for x in NAMES}
CANDIDATE = re.compile(r'(X?)0x([0-9a-f]+) (--|\+\+) \[(\d+)\] (.*?) : (-?[0-9.]+): -->(.*)')


def read(path):
    blocks, text = [], open(path).read()
    head, _, tail = text.partition('BAD RULES:')
    for part in re.split(r'(?m)^Original Instruction: ', head)[1:]:
        lines = part.split('\n')
        verdict = [w for w in ('FAIL', 'TIE', 'OK') if re.search(r'^ \* %s' % w, part, re.M)]
        tie = re.search(r'TIE : (\d+)', part)
        rows = []
        for x in lines[1:]:
            m = CANDIDATE.match(x)
            if m:
                by_rule = {k: float(v) for k, v in re.findall(r'(\w+): (-?[0-9.]+)', m.group(7))}
                rows.append((bool(m.group(1)), int(m.group(2), 16), m.group(3) == '++', int(m.group(4)), m.group(5), float(m.group(6)), by_rule))
        worse = {k: (float(a), float(b)) for k, a, b in re.findall(r'-> (\w+): (-?[0-9.]+) vs\. (-?[0-9.]+)', part)}
        blocks.append({'original': lines[0], 'verdict': verdict, 'tie': int(tie.group(1)) if tie else None, 'rows': rows, 'worse': worse})
    totals = re.search(r'ERRORS: (\d+) -- LOSING: (\d+) -- TIDE: (\d+) --RECOVERED: (\d+) -- RATIO: ([0-9.e-]+)', tail)
    depths = re.search(r'DEPTHS: \{(.*)\}', tail).group(1)
    average = re.search(r'AVERAGE TIE COUNT: ([0-9.]+)', tail)
    return blocks, {
        'bad': {k: int(v) for k, v in re.findall(r'(?m)^(\w+) : (\d+)$', tail)},
        'totals': [int(x) for x in totals.groups()[:4]],
        'ratio': float(totals.group(5)),
        'depths': {int(a): int(b) for a, b in re.findall(r'(\d+): (\d+)', depths)},
        'average': float(average.group(1)) if average else None}


def text(e):
    return TEXT[e] if e in TEXT else str(inst(e, BASE))


def rounded(v):
    if isinstance(v, dict):
        return {k: rounded(x) for k, x in v.items()}
    if isinstance(v, (tuple, list)):
        return type(v)(rounded(x) for x in v)
    return round(v, 6) if isinstance(v, float) else v


def total(v):
    return sum(v.values())


def expected(originals, lists):
    """lists: per address, (encoding, scores by rule, ignored) in the order they are given"""
    blocks, bad, counts, depths, ties = [], {}, [0, 0, 0, 0], {}, []
    for e, v in zip(originals, lists):
        res = {'verdict': [], 'tie': None, 'rows': [], 'worse': {}}
        if len(v) > 1:
            v = [x[2] for x in sorted((-total(x[1]), i, x) for i, x in enumerate(v))]
            best = [x for x in v if total(x[1]) == total(v[0][1])]
            true = [x for x in v if x[0] == e]
            counts[0] += 1
            if text(v[0][0]) != text(e):
                res['verdict'] = ['FAIL']
                counts[1] += 1
                if true:
                    res['worse'] = {k: (s, true[0][1][k]) for k, s in v[0][1].items() if k in true[0][1] and s > true[0][1][k]}
                for k in res['worse']:
                    bad[k] = bad.get(k, 0) + 1
            elif len(best) > 1 and text(v[1][0]) != text(v[0][0]):
                res['verdict'], res['tie'] = ['TIE'], len(best)
                counts[2] += 1
                ties.append(len(best))
            else:
                res['verdict'] = ['OK']
                counts[3] += 1
            if true:
                d = v.index(true[0])
                depths[d] = depths.get(d, 0) + 1
            res['rows'] = [(x[2], x[0] == e, x[0], total(x[1]), x[1]) for x in v]
        blocks.append(res)
    return blocks, {'bad': bad, 'totals': counts, 'ratio': counts[3] / counts[0] if counts[0] else 1.0, 'depths': depths,
                    'average': sum(ties) / len(ties) if ties else None}


def run(t, originals, lists):
    import recover_program
    listing = [inst(e, BASE + 4 * i) for i, e in enumerate(originals)]
    program = []
    for i, v in enumerate(lists):
        program.append([])
        for e, scores, ignored in v:
            x = inst(e, BASE + 4 * i)
            x.scores_by_rule = dict(scores)
            x.ignore = ignored
            program[-1].append(x)
    what = 'originals %s, candidates %s' % (['%x' % e for e in originals], [[('%x' % e, s, g) for e, s, g in v] for v in lists])
    with scratch():
        out = sys.stdout
        recover_program.print_report('report.txt', listing, program)
        t.check(sys.stdout is out, '{}: the standard output is not that of before', what)
        blocks, sums = read('report.txt')
    want, wanted = expected(originals, lists)
    t.equal([b['original'] for b in blocks], [str(x) for x in listing], '%s: instructions of the report' % what)
    for i, (b, w) in enumerate(zip(blocks, want)):
        place = '%s: address %d' % (what, i)
        for k in ('verdict', 'tie', 'worse'):
            t.equal(b[k], rounded(w[k]), '%s: %s' % (place, k))
        t.equal([(g, true, e, s, by) for g, a, true, e, text, s, by in b['rows']], rounded(w['rows']), '%s: candidates' % place)
        t.check(all(r[1] == BASE + 4 * i for r in b['rows']), '{}: listed with another address', place)
        t.equal([r[4] for r in b['rows']], [str(inst(r[3], BASE)) for r in b['rows']], '%s: texts' % place)
    average = sums.pop('average'), wanted.pop('average')
    t.equal(sums, wanted, '%s: totals' % what)
    if sums['totals'][2] > 1 or average[0] is not None:
        t.equal(average[0], average[1], '%s: average tie' % what)
    t.equal([sorted(x.encoding for x in v) for v in program], [sorted(e for e, s, g in v) for v in lists], '%s: candidates after the report' % what)
    t.step(len(originals))
    t.state(str(blocks and [b['verdict'] for b in blocks]), str(sorted(sums.items())))
    t.sample(totals=sums['totals'])


def one(t):
    """One address, several rules"""
    big = t.tier == 'thorough'
    e = CODE[t.pick(NAMES[:3])]
    k = t.int(1, 3)
    names = t.arrangement(NAMES, k)
    values = [0.0, 0.5, 0.5 + CLOSE, 1.0] if k < 3 else [0.0, 0.5, 0.5 + CLOSE] if big else [0.5, 0.5 + CLOSE]
    lists = []
    for i, x in enumerate(names):
        scores = {'pa': t.pick(values)}
        if t.bool() if i < 2 else big:
            scores['pb'] = t.pick([0.0, 0.5])
        lists.append((CODE[x], scores, t.bool() if i == 0 else False))
    run(t, [e], [lists])


def several(t):
    """Several addresses"""
    n = t.int(2, 4 if t.tier == 'thorough' else 3)
    originals, lists = [], []
    for i in range(n):
        e = NAMES[0]
        kind = t.pick(['alone', 'first', 'second', 'tied', 'tied three', 'third', 'same text', 'missing'])
        s = {'alone': [(e, 1)], 'first': [(e, 1), (NAMES[2], 0)], 'second': [(e, 0), (NAMES[2], 1)], 'tied': [(e, 1), (NAMES[2], 1)],
             'tied three': [(e, 1), (NAMES[3], 1), (NAMES[2], 1)], 'third': [(e, 0), (NAMES[3], 0.5), (NAMES[2], 1)],
             'same text': [(NAMES[1], 1), (e, 1)], 'missing': [(NAMES[2], 1), (NAMES[3], 1)]}[kind]
        originals.append(CODE[e])
        ignored = t.pick([None, len(s) - 1] if n < 4 else [None])
        lists.append([(CODE[x], {RULES[(i + j) % 2] if kind == 'third' else 'pa': float(v)}, j == ignored or x == e and ignored is not None)
                      for j, (x, v) in enumerate(s)])
    run(t, originals, lists)


def ties(t):
    """Many candidates with the same score"""
    words = [0xe3a00000 + k for k in range(t.pick([3, 4, 5, 8, 12, 33, 130]))]
    n = t.int(1, 2 if len(words) > 33 else 3 if t.tier == 'thorough' else 2)
    originals, lists = [], []
    for i in range(n):
        tied = t.pick(sorted({1, 2, 3, 4, len(words) - 1, len(words)} & set(range(len(words) + 1))))
        at = t.pick(sorted({0, 1, tied - 1, len(words) - 1}))
        v = [(e, {'pa': 1.0 if k < tied else 0.5, 'pb': 0.25}, False) for k, e in enumerate(words)]
        lists.append(v[::-1] if t.bool() else v)
        originals.append(words[at])
    run(t, originals, lists)


HARNESSES = [
    Harness('one', one, 'every original of 3 x every order of 1..3 candidates of 4, two with the same text x every score of 2..4 per rule, two of them close, x '
            'one or two rules'),
    Harness('several', several, '2 or 3 (thorough 4) addresses of every kind of 8: alone, first, second, third, tied, missing; the original and the last one ignored or not (4: not)'),
    Harness('ties', ties, '1 or 2 (thorough 3) addresses with 3..130 candidates, any of 1..all tied for the best, the original at 4 places, both orders'),
]
