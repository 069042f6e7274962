"""The progress bar"""
import io
import re
import sys
from mc.core import Harness


def run(total, dist, decimals, length, calls, start=0):
    from semantic_codec.report.print_progress import TextProgressBar
    saved, out = sys.stdout, io.StringIO()
    shown = []
    sys.stdout = out
    try:
        bar = TextProgressBar(start, total, prefix='Working:', suffix='done', decimals=decimals, bar_length=length, print_dist=dist)
        for _ in range(calls):
            bar.progress()
            shown.append(out.getvalue())
    finally:
        sys.stdout = saved
    return shown


def body(t):
    big = t.tier == 'thorough'
    total = t.int(0, 60 if not big else 250)
    dist = t.pick([1, 2, 4, 10, 50])
    decimals = t.int(0, 2)
    length = t.pick([1, 50])
    check(t, total, dist, decimals, length, total + t.pick([0, 1, 5]))


def large(t):
    big = t.tier == 'thorough'
    total = t.pick([99, 100, 101, 150, 199, 200, 201, 255, 256, 257, 333, 500, 999, 1000, 1001] + ([2500, 4096, 9999, 12345] if big else []))
    dist = t.pick([1, 3, 7, 10, 33, 50, 100])
    decimals = t.pick([0, 1, 3])
    if '{0:.{1}f}'.format(100 * (total - dist - 1) / total, decimals).startswith('100'):
        t.prune()           # before the end the rounded percentage is 100 as well
    check(t, total, dist, decimals, t.pick([1, 100]), total + t.pick([0, 1]))


def check(t, total, dist, decimals, length, calls):
    shown = run(total, dist, decimals, length, calls)
    text = shown[-1] if shown else ''
    parts = [p for p in text.split('\r') if p]
    last, filled = -1.0, 0
    for p in parts:
        m = re.match(r'^Working: \|(█*)(-*)\| ([0-9.]+)% done(\n*)$', p)
        t.check(m is not None, 'strange output {!r}', p)
        v = float(m.group(3))
        t.check(len(m.group(1)) + len(m.group(2)) == length, 'the bar has length {}', len(m.group(1)) + len(m.group(2)))
        cells = len(m.group(1))
        t.check(filled <= cells, 'total {} every {}: the bar goes back from {} to {} cells', total, dist, filled, cells)
        t.check(abs(cells - length * v / 100) <= 1 + length / 200 + length / max(1, total), 'total {} every {}: {} cells of {} at {}%', total, dist, cells, length, v)
        filled = cells
        t.check(last <= v <= 100, 'total {} every {}: {}% after {}%', total, dist, v, last)
        t.check(last < 100, 'total {} every {}: something is printed after 100%', total, dist)
        t.check(v < 100 or not m.group(2), 'an incomplete bar at 100%')
        last = v
    if calls and calls >= total:
        t.check(last == 100, 'total {} every {}: {}% after {} steps', total, dist, last, calls)
        t.check(text.count('\n') == 1 and text.endswith('\n'), 'the line is not ended once')
    t.check(len(parts) <= 3 + 100 / dist, '{} updates of a bar that advances {}% at a time', len(parts), dist)
    # never ahead of the work by more than the distance
    for k, s in enumerate(shown):
        done = [p for p in s.split('\r') if p]
        v = float(re.search(r'([0-9.]+)% done', done[-1]).group(1)) if done else 0
        if v < 100:
            t.check(v <= 100 * (k + 1) / total + 0.5, 'total {}: {}% after {} steps', total, v, k + 1)
    t.step(calls)
    t.state(total, dist, decimals, length, tuple(parts))
    t.sample(total=total, distance=dist, shown=[p.strip() for p in parts][-2:])


HARNESSES = [Harness('bars', body, 'totals 0..60 (thorough 250) x 5 distances x 0..2 decimals x 2 lengths x as many, one more or five more steps than the total'),
             Harness('large', large, '15 totals 99..1001 (thorough 19, up to 12345) x 7 distances x 3 decimals x 2 lengths', cpu_limit=100)]
