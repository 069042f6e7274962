"""
Bounded exhaustive exploration of the real implementation.

A *harness* is a function ``body(t)`` that closes a piece of /repo with a driver.  Every piece of nondeterminism
(operation picked, argument, program shape, lost packet, answer of the random source, crash point ...) is taken from
``t.pick``; the explorer re-executes the body once for every leaf of the resulting choice tree (stateless depth first
search by replay), so one run of a harness covers *every* behaviour inside the stated bounds.

Everything is deterministic: the order of exploration is the lexicographic order of the choice sequences, a divergence
while a prefix is replayed fails the check, and a counterexample is nothing but a choice sequence.
"""
import importlib
import io
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
WORKERS = int(os.environ.get('MC_WORKERS', '0')) or (os.cpu_count() or 2)


class Violation(Exception):
    """The property is broken in this execution."""
    def __init__(self, message, key=None):
        super().__init__(message)
        self.message = message
        self.key = key


class Hang(BaseException):
    pass


class _Prune(BaseException):
    """Execution outside the stated space (an infeasible combination of choices): not counted as covered."""


class _Split(BaseException):
    pass


class HarnessError(Exception):
    """The explorer itself is unsound on this input (replay divergence): never reported as a violation."""


class Divergence(HarnessError):
    """
    The same choices met another number of options.  The drivers are deterministic functions of the choices and of what
    the implementation draws from the random source, so this is hidden state of the implementation.
    """


class Trial(object):
    """One execution: the choices that drive it and what was observed."""

    def __init__(self, prefix, known=(), split_at=None, tier='quick'):
        self.prefix = prefix
        self.trace = []      # (choice, number of options)
        self.split_at = split_at
        self.known = known
        self.tier = tier
        self.steps = 0
        self.states = set()
        self.findings = {}
        self.note = []
        self._sample = None

    # ---------------------------------------------------------------- choices
    def choose(self, n):
        i = len(self.trace)
        if n <= 0:
            raise _Prune()
        if self.split_at is not None and i >= self.split_at:
            self.trace.append((0, n))
            raise _Split()
        if i < len(self.prefix):
            c, expected = self.prefix[i]
            if expected is not None and expected != n:
                raise Divergence('replay divergence at choice %d: %d options, recorded %d' % (i, n, expected))
            if c >= n:
                raise Divergence('replay divergence at choice %d: option %d of %d' % (i, c, n))
        else:
            c = 0
        self.trace.append((c, n))
        return c

    def pick(self, options):
        if not isinstance(options, (list, tuple, range)):
            options = list(options)
        return options[self.choose(len(options))]

    def int(self, lo, hi):
        return lo + self.choose(hi - lo + 1)

    def bool(self):
        return bool(self.choose(2))

    def subset(self, options, max_size=None):
        """Any subset (in the order of the options), smallest choices first"""
        result = []
        for o in options:
            if max_size is not None and len(result) >= max_size:
                break
            if self.choose(2):
                result.append(o)
        return result

    def seq(self, options, lo, hi):
        n = self.int(lo, hi)
        return [self.pick(options) for _ in range(n)]

    def arrangement(self, options, k):
        """Any ordered selection of k different options"""
        rest = list(options)
        return [rest.pop(self.choose(len(rest))) for _ in range(k)]

    def prune(self):
        raise _Prune()

    # ---------------------------------------------------------------- observations
    def step(self, n=1):
        """n operations of the implementation were executed"""
        self.steps += n

    def state(self, *key):
        """A reached state / observed outcome, in canonical form"""
        self.states.add(hash(key))

    def sample(self, **kw):
        self._sample = kw

    def check(self, cond, message, *args):
        if not cond:
            raise Violation(message.format(*args) if args else message)

    def equal(self, got, expected, what):
        if got != expected:
            raise Violation('%s: expected %s, got %s' % (what, short(expected), short(got)))

    def finding(self, key, message):
        """A defect with an identity: listed in the known findings file it is only reported, otherwise a violation"""
        if key in self.known:
            self.findings.setdefault(key, message)
        else:
            raise Violation('[%s] %s' % (key, message), key)


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


class Harness(object):
    def __init__(self, name, body, about, cpu_limit=20.0, tiers=('quick', 'thorough'), split=96):
        self.name = name
        self.body = body
        self.about = about
        self.cpu_limit = cpu_limit
        self.tiers = tiers
        self.split = split      # subtrees to share out; few when a single execution is long, for splitting executes too


# -------------------------------------------------------------------- one execution

class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)


def _on_timer(signum, frame):
    raise Hang()


def execute(harness, prefix, known, tier, split_at=None):
    """Runs the body once. Returns (trial, outcome, message); outcome in ok, pruned, violation, split"""
    t = Trial(prefix, known, split_at, tier)
    out = sys.stdout
    sys.stdout = _Null()
    signal.signal(signal.SIGPROF, _on_timer)
    signal.setitimer(signal.ITIMER_PROF, harness.cpu_limit)
    try:
        harness.body(t)
        res = ('ok', None, None)
    except _Prune:
        res = ('pruned', None, None)
    except _Split:
        res = ('split', None, None)
    except Violation as e:
        res = ('violation', e.message, e.key)
    except Hang:
        res = ('violation', 'no termination: the execution used more than %ss of CPU time' % harness.cpu_limit, None)
    except Divergence as e:
        # the driver is deterministic, so the implementation behaved differently because of what ran before
        res = ('violation', 'the behaviour depends on earlier executions in the same process (%s)' % e, None)
    except HarnessError:
        raise
    except MemoryError:
        res = ('violation', 'the execution exhausted its memory limit', None)
    except Exception as e:
        res = ('violation', 'unexpected %s: %s\n%s' % (type(e).__name__, e, _where(e)), None)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        sys.stdout = out
    return (t,) + res


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return '\n'.join('    at %s:%s %s' % (f.filename, f.lineno, f.line) for f in tb[-4:])


class Stats(object):
    def __init__(self):
        self.executions = 0
        self.pruned = 0
        self.steps = 0
        self.choices = 0
        self.states = set()
        self.findings = {}
        self.samples = []
        self.violation = None    # (weight, choices, message, key, history)

    def merge(self, o):
        self.executions += o.executions
        self.pruned += o.pruned
        self.steps += o.steps
        self.choices += o.choices
        self.states |= o.states
        for k, v in o.findings.items():
            self.findings.setdefault(k, v)
        self.samples.extend(o.samples[:2])
        if o.violation and (self.violation is None or o.violation[0] < self.violation[0]):
            self.violation = o.violation


def explore_subtrees(harness, prefixes, known, tier, deadline):
    """Every leaf below every prefix, in lexicographic order; stops at the first violation"""
    stats = Stats()
    done = []
    for root in prefixes:
        prefix = list(root)
        while True:
            if time.time() > deadline:
                raise HarnessError('time budget exhausted in %s' % harness.name)
            t, kind, message, key = execute(harness, prefix, known, tier)
            stats.choices += len(t.trace)
            if kind == 'pruned':
                stats.pruned += 1
            else:
                stats.executions += 1
                stats.steps += t.steps
                stats.states |= t.states
            for k, v in t.findings.items():
                stats.findings.setdefault(k, v)
            if t._sample is not None and (len(stats.samples) < 1 or stats.executions in (7, 61)):
                stats.samples.append(t._sample)
            if kind == 'violation':
                choices = [c for c, _ in t.trace]
                weight = (sum(1 for c in choices if c), len(choices), choices)
                stats.violation = (weight, choices, message, key, (done, [list(x) for x in root]))
                return stats
            # next leaf
            i = len(t.trace) - 1
            while i >= len(root) and t.trace[i][0] + 1 >= t.trace[i][1]:
                i -= 1
            if i < len(root):
                break
            prefix = t.trace[:i] + [(t.trace[i][0] + 1, t.trace[i][1])]
        done.append([list(x) for x in root])
    return stats


def split(harness, known, tier, cap=6000):
    """Prefixes whose subtrees partition the whole choice tree"""
    leaves, frontier = [], [[]]
    while frontier and len(leaves) + len(frontier) < harness.split:
        nxt = []
        for p in frontier:
            t, kind, _, _ = execute(harness, p, known, tier, split_at=len(p))
            if kind != 'split':
                leaves.append(p)
                continue
            n = t.trace[-1][1]
            nxt.extend(p + [(c, n)] for c in range(n))
        frontier = nxt
        if len(frontier) > cap:
            break
    return leaves + frontier


_CTX = {}


def _worker(args):
    name, group, soft = args
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    except (ValueError, OSError):
        pass
    harness, known, tier, deadline = _CTX[name]
    try:
        return 'ok', explore_subtrees(harness, group, known, tier, deadline)
    except HarnessError as e:
        return 'error', str(e)


def explore(harness, known=(), tier='quick', deadline=None):
    deadline = deadline or time.time() + 1e9
    prefixes = split(harness, known, tier)
    n = max(1, min(len(prefixes), WORKERS * 8))
    groups = [prefixes[i::n] for i in range(n)]
    _CTX[harness.name] = (harness, known, tier, deadline)
    total = Stats()
    ctx = multiprocessing.get_context('fork')
    # one fresh process for each group: what a worker did before never depends on the order the groups were run in
    with ctx.Pool(WORKERS, maxtasksperchild=1) as pool:
        grace = None
        it = pool.imap_unordered(_worker, [(harness.name, g, None) for g in groups], chunksize=1)
        for _ in range(len(groups)):
            try:
                kind, res = it.next(timeout=None if grace is None else max(0.1, grace - time.time()))
            except multiprocessing.TimeoutError:
                break
            if kind == 'error':
                pool.terminate()
                raise HarnessError(res)
            total.merge(res)
            if total.violation and grace is None:
                grace = time.time() + 10
        pool.terminate()
    return total


# -------------------------------------------------------------------- the source of randomness, owned

class ControlledRandom(object):
    """
    Every draw from the random module becomes a choice of the explorer.  Draws below ``wide`` options are explored
    completely, wider ones over the two smallest, the middle and the two largest answers.  After ``budget`` controlled
    draws the answers come from a fixed pseudo random sequence, so rejection loops terminate if they can terminate at
    all; ``limit`` draws without the call returning are reported as a livelock.
    """

    def __init__(self, t, budget, wide=8, limit=20000):
        self.t = t
        self.budget = budget
        self.wide = wide
        self.limit = limit
        self.draws = 0

    def answer(self, n):
        self.draws += 1
        if self.draws > self.limit:
            raise Violation('livelock: %d random draws and the call has not returned' % self.limit)
        if n <= 1:
            return 0
        if self.draws > self.budget:
            return self._fallback.below(n)
        if n <= self.wide:
            return self.t.choose(n)
        return self.t.pick(sorted({0, 1, n // 2, n - 2, n - 1}))

    def __enter__(self):
        import random
        self._fallback = _Lcg()
        me = self
        inst = random._inst
        self._saved_cls = inst.__class__

        class Controlled(random.Random):
            def _randbelow(self, n):
                return me.answer(n)

            def random(self):
                return me.answer(1 << 20) / float(1 << 20)

            def getrandbits(self, k):
                return me.answer(1 << k)
        Controlled._randbelow_with_getrandbits = Controlled._randbelow
        Controlled._randbelow_without_getrandbits = Controlled._randbelow
        inst.__class__ = Controlled
        # module level names are bound methods of the hidden instance
        self._names = {}
        for name in ('random', 'getrandbits', 'randint', 'randrange', 'choice', 'choices', 'shuffle', 'sample',
                     'uniform', 'randbytes'):
            self._names[name] = getattr(random, name)
            setattr(random, name, getattr(inst, name))
        return self

    def __exit__(self, *a):
        import random
        random._inst.__class__ = self._saved_cls
        for name, f in self._names.items():
            setattr(random, name, f)
        return False


class _Lcg(object):
    def __init__(self):
        self.s = 12345

    def below(self, n):
        self.s = (self.s * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        return (self.s >> 24) % n


# -------------------------------------------------------------------- known findings

def load_known(prop):
    """key -> description, for the findings of this property that are listed as known (not the fixed ones)"""
    res = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith('known: property=%s ' % prop):
                continue
            rest = line.split(' ', 2)[2]
            key, desc = rest.split(' ', 1)
            res[key[len('key='):]] = desc
    return res


# -------------------------------------------------------------------- driver

def setup_imports():
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter('ignore')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def preload():
    """Imports once what the workers would otherwise import in each process; what fails here fails in its harness"""
    for name in ('numpy', 'capstone', 'constraint', 'pydot', 'bitarray', 'pygraph.classes.digraph', 'json',
                 'semantic_codec.architecture.capstone_instruction', 'semantic_codec.architecture.disassembler_readers',
                 'semantic_codec.corruption.corruptors', 'semantic_codec.interleaver.interleaver2d',
                 'semantic_codec.metadata.recuperator', 'semantic_codec.solution.solution_builders',
                 'semantic_codec.solution.solution_io', 'semantic_codec.solution.solution_quality',
                 'semantic_codec.static_analysis.cfg', 'semantic_codec.static_analysis.dominators',
                 'semantic_codec.static_analysis.ssa', 'semantic_codec.static_analysis.value_dependency'):
        try:
            importlib.import_module(name)
        except Exception:
            pass


def load_check(prop):
    setup_imports()
    preload()
    return importlib.import_module('mc.checks.%s' % prop)


def run(prop, tier):
    t0 = time.time()
    deadline = t0 + (800 if tier == 'quick' else 3600)
    mod = load_check(prop)
    known = load_known(prop)
    total = Stats()
    per = []
    for h in mod.HARNESSES:
        if tier not in h.tiers:
            continue
        h0 = time.time()
        s = explore(h, known, tier, deadline)
        per.append({'harness': h.name, 'space': h.about, 'executions': s.executions,
                    'infeasible_choice_combinations_skipped': s.pruned, 'implementation_steps': s.steps,
                    'distinct_states': len(s.states), 'wall_s': round(time.time() - h0, 2),
                    'exhaustive_within_bounds': s.violation is None})
        s.states = {hash((h.name, x)) for x in s.states}
        if s.violation:
            s.violation = s.violation + (h.name,)
        total.samples.extend({'harness': h.name, **x} for x in s.samples[:2])
        s.samples = []
        total.merge(s)
        if s.violation:
            break
    wall = time.time() - t0
    evidence = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': mod.LEVEL if hasattr(mod, 'LEVEL') else 'model_checking',
        'coverage': {
            'states': len(total.states),
            'transitions': total.steps,
            'traces_validated_against_impl': total.executions,
            'choice_points': total.choices,
            'samples': [json.loads(json.dumps(x, default=repr)) for x in total.samples[:12]],
            'exhaustive': total.violation is None,
            'harnesses': per,
            'explanation': 'Stateless exhaustive exploration of the real code: every execution of every harness '
                           'within its bounds is run against /repo and compared with a reference model. states = '
                           'distinct canonical states or observed outcomes, transitions = operations of the '
                           'implementation executed, traces = complete executions.',
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': 1 if total.violation else 0,
    }
    if evidence['level'] == 'fault_enumeration':
        evidence['coverage'].update({
            'evaluations': total.executions, 'distinct_nontrivial': len(total.states),
            'rule': getattr(mod, 'RULE', 'every fault point of every history; non trivial: distinct observed outcome')})
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    for h in per:
        print('%s %s: %d executions, %d steps, %d distinct states, %.1fs' % (
            prop, h['harness'], h['executions'], h['implementation_steps'], h['distinct_states'], h['wall_s']))
    for k in sorted(total.findings):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
    if total.violation:
        _, choices, message, key, history, hname = total.violation
        path = os.path.join(VERIF, 'replays', '%s.json' % prop)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        rec = {'property': prop, 'harness': hname, 'tier': tier, 'choices': choices, 'message': message,
               'key': key, 'history': history,
               'how': 'cd /verif && ./replay %s   (runs this one execution; --history first runs the executions that '
                      'preceded it in the same process)' % path}
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1)
        print('counterexample in harness %s, choices %s' % (hname, choices))
        print(message)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        sys.stdout.flush()
        return 1
    print('%s: property held on %d executions, %d distinct states (%s, %.1fs)' % (
        prop, total.executions, len(total.states), tier, wall))
    return 0


def replay(path, with_history=False):
    rec = json.load(open(path))
    mod = load_check(rec['property'])
    known = load_known(rec['property'])
    h = [x for x in mod.HARNESSES if x.name == rec['harness']][0]
    if with_history:
        done, root = rec['history']
        s = explore_subtrees(h, [[tuple(x) for x in p] for p in done] + [[tuple(x) for x in root]], known,
                             rec['tier'], time.time() + 1e9)
        bad = s.violation
        print('replayed with history:', 'VIOLATION ' + bad[2] if bad else 'no violation')
        return 1 if bad else 0
    kinds = []
    for _ in range(2):
        t, kind, message, key = execute(h, [(c, None) for c in rec['choices']], known, rec['tier'])
        kinds.append((kind, message))
        print('replay: %s %s' % (kind, message or ''))
    if kinds[0] != kinds[1]:
        print('the two replays differ')
    return 1 if kinds[0][0] == 'violation' else 0


def main(argv):
    if argv[0] == '--replay':
        return replay(argv[1], '--history' in argv)
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    try:
        return run(prop, tier)
    except HarnessError as e:
        print('ERROR %s: %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
