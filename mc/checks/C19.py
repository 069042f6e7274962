"""The rule scorers of the legacy recovery."""
from mc.core import Harness
from mc.programs import CODE, UNUSUAL, inst, BASE, encodings
from mc.recovering import collect, build

A = ['add r0,r0,r1', 'moveq r0,#1', 'str r0,[r1]', 'bne -8', 'undefined', 'subs r1,r1,#1', 'push {r4,lr}']
WORDS = {'b -4': 0xeafffffd, 'b here': 0xeafffffe}          # to the address before, to its own


def discard(program, names, k):
    """Marks the k-th wrong candidate as discarded, none if zero"""
    wrong = [c for x, v in zip(names, program.values()) for c in v if c.encoding != CODE[x]]
    if k:
        wrong[k - 1].ignore = True


def check_counting(t, cls, field, total, collector, program, what, first=True):
    total_before = dict(total)
    rule = cls(program, collector=collector)
    left, offers = dict(total), {}
    for v in program.values():
        valid = [c for c in v if not c.ignore]
        if len(valid) == 1:
            for f in field(valid[0]):
                left[f] -= 1
        else:
            for c in valid:
                for f in field(c):
                    offers[f] = offers.get(f, 0) + 1
    for i, (a, v) in enumerate(program.items()):
        changed = rule.recover(a)
        t.check(not first or changed == any(not c.ignore for c in v), 'the first scoring reports change: {}', changed)
        for c in v:
            if c.ignore:
                t.check(c.score() == 0, 'an undecodable candidate has score {}', c.score())
                continue
            fs = field(c)
            want = sum(left[f] / offers[f] if f in left and f in offers else 0 for f in fs) / (len(fs) or 1)
            if cls.__name__ == 'RegisterCount' and (c.is_branch or not fs):
                want += 0.000001
            t.check(abs(c.score() - want) < 1e-9, '{}: {}: score of {:x} is {}, expected {}', cls.__name__, what,
                    c.encoding, c.score(), want)
        t.check(rule.recover(a) is False or not rule.recover(a), 'scoring again reports a change')
        t.step(3)
    t.equal(dict(total), total_before, 'metadata after scoring')
    t.state(cls.__name__, tuple(round(c.score(), 9) for v in program.values() for c in v))


def counting(t):
    """score = what the metadata still asks for of each field value / candidates that offer it"""
    from semantic_codec.metadata.probabilistic_rules.counting_rules import ConditionalCount, InstructionCount, RegisterCount
    big = t.tier == 'thorough'
    alphabet = A if big else A[:5]
    n = t.int(1, 3 if big else 2)
    names = [t.pick([a for a in alphabet if a != 'undefined']) for _ in range(n)]
    last = t.bool()
    lists = []
    for x in names:
        wrong = t.subset([a for a in alphabet if a != x], 2 if n < 3 else 1)
        lists.append(wrong + [x] if last else [x] + wrong)
    # an earlier pass may have discarded a wrong candidate
    discarded = t.choose(1 + sum(len(v) - 1 for v in lists))
    collector = collect(names)
    for cls, field, total in ((ConditionalCount, lambda x: [x.conditional_field], collector.condition_count),
                              (InstructionCount, lambda x: [x.opcode_field], collector.instruction_count),
                              (RegisterCount, lambda x: x.registers_used(), collector.storage_count)):
        program = build(lists)
        discard(program, names, discarded)
        check_counting(t, cls, field, total, collector, program, 'program %s candidates %s' % (names, lists))
        if not discarded and n < 3:
            # what an earlier recovery said is forgotten once there are fewer candidates
            for x, v in list(zip(names, program.values()))[:1]:
                gone = [c for c in v if c.encoding != CODE[x]][-1:]
                v[:] = [c for c in v if c not in gone]
            check_counting(t, cls, field, total, collector, program, 'program %s candidates %s, then one less' % (names, lists), False)
    t.sample(program=names, candidates=lists)


def control_flow(t):
    from semantic_codec.metadata.probabilistic_rules.rules import ControlFlowBehavior
    big = t.tier == 'thorough'
    alphabet = A[:6] if big else A[1:6]
    have_prev, have_post = t.bool(), t.bool()
    prev = t.subset(alphabet + ['cmp r1,#0'], 2) if have_prev else None
    post = t.subset(alphabet, 2) if have_post else None
    mid = t.subset(alphabet + ['b +8', 'b -4', 'b here'], 2)
    base = t.pick([BASE, 0])
    program = {base + 4 * i: [inst(WORDS.get(x, x), base + 4 * i) for x in v] for i, v in enumerate([prev, mid, post]) if v is not None}
    around = [c for a, v in program.items() for c in v]
    discarded = t.choose(1 + len(around))
    if discarded:
        around[discarded - 1].ignore = True
    rule = ControlFlowBehavior(program)
    changed = rule.recover(base + 4)
    t.check(bool(changed) == bool(mid), 'the first scoring of {} candidates reports {}', len(mid), changed)
    check_control_flow(t, program, base, 'before %s after %s' % (prev, post))
    t.check(not rule.recover(base + 4), 'scoring again reports a change')
    for at in (base, base + 8):
        # Fewer candidates around it: the score is the new one
        if program.get(at):
            program[at].pop()
            rule.recover(base + 4)
            check_control_flow(t, program, base, 'before %s after %s, then one less at %#x' % (prev, post, at))
    t.step(2)
    t.state(tuple(round(c.score(), 9) for c in program[base + 4]))
    t.sample(before=prev, candidates=mid, after=post)


def check_control_flow(t, program, base, what):
    from semantic_codec.metadata.probabilistic_model import DefaultProbabilisticModel
    m = DefaultProbabilisticModel()
    pv = [c for c in program.get(base, []) if not c.ignore]
    po = [c for c in program.get(base + 8, []) if not c.ignore]
    for c in program[base + 4]:
        want = 0.0
        if not c.ignore:
            k = c.conditional_field
            if pv:
                want += m.both_conditionals_are_equals * sum(x.conditional_field == k for x in pv) / len(pv)
                if k == 14:
                    want -= m.branch_after_cpsr * sum(bool(x.modifies_flags()) for x in pv) / len(pv)
            if po:
                want += m.both_conditionals_are_equals * sum(x.conditional_field == k for x in po) / len(po)
            want = max(want, 0)          # an unlikely condition is still possible
            if c.is_branch and c.jumping_address in program:
                want += m.just_any_jump_is_valid
        t.check(abs(c.score() - want) < 1e-9, '{}: score of {:x} is {}, expected {}', what, c.encoding, c.score(), want)


def expected_distance(program, a, c, least, most):
    """Mean, over the storages read, of the best chance of being written inside the distances known for any of them; None: nobody is there"""
    if c.ignore:
        return 0
    reads = c.storages_read()
    known = [r for r in reads if r in least]
    if not known:
        return None
    best, somebody = {}, False
    # a distance counts the instructions between the two
    for d in range(min(least[r] for r in known) + 1, max(most[r] for r in known) + 2):
        before = program.get(a - 4 * d)
        if before is None:
            continue
        somebody = True
        valid = [x for x in before if not x.ignore]
        for x in valid:
            written = x.storages_written()
            for w in written:
                if w in reads:
                    best[w] = max(best.get(w, 0), 1 / (len(written) * len(valid)))
    return sum(best.values()) / len(reads) if somebody else None


def check_distance(t, program, collector, what):
    from semantic_codec.metadata.probabilistic_rules.distance_rule import RegisterReadDistance
    least, most = dict(collector.storage_min_dist), dict(collector.storage_max_dist)
    rule = RegisterReadDistance(program, collector=collector)
    for a, v in program.items():
        rule.recover(a)
        first = [c.score() for c in v]
        for c in v:
            got, want = list(c.scores_by_rule.values()), expected_distance(program, a, c, least, most)
            t.check(-1e-9 <= c.score() <= 1 + 1e-9, 'distance score {}', c.score())
            if want is None:
                t.check(got == [], '{}: {:x} at {:#x} has the score {}, nothing is within the distances', what, c.encoding, a, got)
            else:
                t.check(len(got) == 1 and abs(got[0] - want) < 1e-9, '{}: {:x} at {:#x} has the score {}, expected {}', what, c.encoding, a,
                        got, want)
        rule.recover(a)
        t.check([c.score() for c in v] == first, 'scoring again changes the scores')
        t.step(2)
    t.equal((collector.storage_min_dist, collector.storage_max_dist), (least, most), 'distances after scoring')
    t.state(tuple(c.score() for v in program.values() for c in v))


WRITERS = ['add r0,r0,r1', 'mov r0,#1', 'mov r1,#1', 'str r0,[r1]', 'push {r4,lr}', 'subs r1,r1,#1', 'undefined']


def register_distance(t):
    """Scores stay probabilities, undecodable candidates get nothing, scoring is stable"""
    big = t.tier == 'thorough'
    alphabet = ['add r0,r0,r1', 'mov r0,#1', 'str r0,[r1]', 'bx lr', 'undefined', 'b +8', 'pop {r4,pc}', 'ldr r0,[r1]']
    n = t.int(2, 4 if big else 3)
    alphabet = alphabet if n == 2 or n == 3 and big else alphabet[:5] if n == 3 else alphabet[:4]
    names = [t.pick([a for a in alphabet if a != 'undefined']) for _ in range(n)]
    lists = [[x] + t.subset([a for a in alphabet if a != x], 1) for x in names]
    program = build(lists)
    discard(program, names, t.choose(1 + sum(len(v) - 1 for v in lists)))
    check_distance(t, program, collect(names), 'program %s candidates %s' % (names, lists))
    t.sample(program=names, candidates=lists)


def windows(t):
    """Any distances in the metadata, for one or two registers, and any writers inside and outside of them, near and far"""
    big = t.tier == 'thorough'
    collector = collect([])
    reader = t.pick(['add r2,r0,r1', 'ldr r0,[r1]'] + ['mov r2,r0'] * big)
    words = {'add r2,r0,r1': 0xe0802001, 'mov r2,r0': 0xe1a02000}
    n = t.pick([3, 5])
    for r in (0, 1):
        lo = t.pick([None, 0, 1, n - 2, n])
        hi = lo if lo is None else lo + t.pick([0, 1, 4] if big else [0, 2])
        if lo is not None:
            collector.storage_min_dist[r], collector.storage_max_dist[r] = lo, hi
    base = t.pick([BASE, 0]) if big or n == 3 else BASE
    program = {base + 4 * i: [inst(0xe3a07000, base + 4 * i)] for i in range(n)}
    for at in (0, n - 2):
        program[base + 4 * at] = [inst(x, base + 4 * at) for x in t.subset(WRITERS[:5] if n == 5 else WRITERS[1:4] + WRITERS[-1:], 2 if big or n == 3 else 1)]
    if n == 5 and t.bool():
        del program[base + 4]
    program[base + 4 * (n - 1)] = [inst(words.get(reader, reader), base + 4 * (n - 1))]
    check_distance(t, program, collector, '%s, distances %s to %s' % (reader, collector.storage_min_dist, collector.storage_max_dist))
    t.sample(reader=reader, least=dict(collector.storage_min_dist), largest=dict(collector.storage_max_dist))


def far(t):
    """Distances of hundreds of instructions"""
    collector = collect([])
    far = t.pick([20, 63, 99, 100, 101, 128, 255, 256, 300] + ([1000, 2000] if t.tier == 'thorough' else []))
    lo = t.pick([0, 1, far - 1, far])
    hi = t.pick([far - 1, far, far + 1, far + 500])
    if lo > hi:
        t.prune()
    collector.storage_min_dist[0], collector.storage_max_dist[0] = lo, hi
    base = t.pick([BASE, 0])
    program = {base + 4 * i: [inst(0xe3a07000, base + 4 * i)] for i in (range(far + 2) if t.bool() else (0, 1, far, far + 1))}
    program[base] = [inst(x, base) for x in t.pick([['mov r0,#1'], ['mov r0,#1', 'mov r1,#1'], ['undefined', 'add r0,r0,r1', 'bx lr']])]
    program[base + 4 * (far + 1)] = [inst(0xe1a02000, base + 4 * (far + 1)), inst('ldr r2,[r0]', base + 4 * (far + 1))]
    check_distance(t, program, collector, 'distance %d, between %d and %d' % (far, lo, hi))
    t.sample(distance=far, least=lo, largest=hi)


def unusual(t):
    """Coprocessor, vector and system instructions use storages of their own"""
    n = 3
    names = [t.pick(UNUSUAL + (['add r0,r0,r1', 'push {r4,lr}'] if k else [])) for k in range(n - 1)] + ['add r1,r0,r1']
    wrong = [t.pick(UNUSUAL[5:9] + UNUSUAL[14:16] + ['pop {r4,pc}']), 'undefined']
    at = t.int(0, n - 1)
    lists = [[x] + (wrong if i == at else []) for i, x in enumerate(names)]
    check_distance(t, build(lists), collect(names), 'program %s candidates %s' % (names, lists))
    t.sample(program=[str(x) for x in names])


def numerous(t):
    """Addresses with dozens of candidates, some of them the same word"""
    from semantic_codec.metadata.probabilistic_rules.counting_rules import ConditionalCount, InstructionCount, RegisterCount
    n = t.pick([15, 16, 17, 33, 65])
    pool = [0xea000000 + k for k in range(n)] if t.bool() else [0xe0800000 | (k % 15) << 28 | k % 12 << 16 | (k // 3) % 12 << 12 | k % 5 for k in range(n)]
    kind = t.pick(['once', 'twice'])
    names = ['b +8', 'add r0,r0,r1', 'bx lr']
    lists = [['b +8'] + pool + ['beq +8'], ['add r0,r0,r1'] + (pool if kind == 'twice' else []) + ['bl -8'], ['bx lr']]
    collector = collect(names)
    for cls, field, total in ((ConditionalCount, lambda x: [x.conditional_field], collector.condition_count),
                              (InstructionCount, lambda x: [x.opcode_field], collector.instruction_count),
                              (RegisterCount, lambda x: x.registers_used(), collector.storage_count)):
        check_counting(t, cls, field, total, collector, build(lists), '%d candidates' % n)
    check_distance(t, build(lists), collector, '%d candidates' % n)
    t.state(n, kind, pool[1])
    t.sample(candidates=n)


WIDE = {'push {r4-r6,lr}': 0xe92d4070, 'push {r0-r9,lr}': 0xe92d43ff, 'pop {r4-r9,pc}': 0xe8bd83f0, 'stm r0,{r1-r9}': 0xe88003fe,
        'ldm r0,{r1-r10}': 0xe89007fe, 'stm r0,{r1-r12}': 0xe8801ffe, 'mla r0,r1,r2,r3': 0xe0203291}


def wide(t):
    """Instructions that use many registers, and a different chance for each of them"""
    from semantic_codec.metadata.probabilistic_rules.counting_rules import ConditionalCount, InstructionCount, RegisterCount
    names = [t.pick(sorted(WIDE)), t.pick(['add r0,r0,r1', 'mov r0,#1'])]
    more = [x for x in sorted(WIDE) if x != names[0]] + ['moveq r0,#1', 'ldr r0,[r1]']
    words = [WIDE.get(x, x) for x in names]
    lists = [[words[0]] + [WIDE.get(x, x) for x in t.subset(more, 2)], [words[1]] + [WIDE.get(x, x) for x in t.subset(more, 1)]]
    collector = collect(words)
    for cls, field, total in ((ConditionalCount, lambda x: [x.conditional_field], collector.condition_count),
                              (InstructionCount, lambda x: [x.opcode_field], collector.instruction_count),
                              (RegisterCount, lambda x: x.registers_used(), collector.storage_count)):
        check_counting(t, cls, field, total, collector, build(lists), 'program %s' % names)
    check_distance(t, build(lists), collector, 'program %s' % names)
    t.sample(program=names)


def one_by_one(t):
    """All, or all but one or two, of the registers a word reads written before it, one at a time"""
    reader = t.pick(sorted(WIDE))
    k = t.int(0, 12)
    holes = t.subset([0, 1, 4, 8], 2)
    words = [0xe3a00001 | r << 12 for r in range(13) if r not in holes][:k + 1] + [0xe3a07000] * t.int(0, 1) + [WIDE[reader]]
    collector = collect(words)
    lists = [[w] for w in words]
    lists[-1] += [WIDE[x] for x in sorted(WIDE) if x != reader][:2]
    check_distance(t, build(lists), collector, '%d writers before %s' % (k, reader))
    t.sample(reader=reader, writers=k)


def legacy(t):
    """The legacy recovery scores every candidate of every open address"""
    from semantic_codec.metadata.recuperator import Recuperator
    alphabet = A[:5]
    n = t.int(1, 3)
    names = [t.pick([a for a in alphabet if a != 'undefined']) for _ in range(n)]
    lists = [[x] + t.subset([a for a in alphabet if a != x], 1) for x in names]
    program = build(lists)
    discard(program, names, t.choose(1 + sum(len(v) - 1 for v in lists)))
    before = encodings(program)
    ignored = {id(c) for v in program.values() for c in v if c.ignore}
    recuperator = Recuperator(collect(names), program)
    recuperator.passes = t.int(1, 3) if t.tier == 'thorough' else t.int(1, 2) if n < 3 else 1
    recuperator.recover()
    t.equal(encodings(program), before, 'candidates')
    for v in program.values():
        # One that is the only one left has nothing to be compared with
        undecided = sum(id(c) not in ignored for c in v) > 1
        for c in v:
            if undecided and not c.ignore:
                t.check(len(c.scores_by_rule) > 0, 'a candidate was not scored')
            # With several passes, what a rule gives no chance to is discarded
            if recuperator.passes > 1 and undecided:
                least = min(c.scores_by_rule.values()) if c.scores_by_rule else 0
                t.check(c.ignore or least > 0, 'a candidate without a chance remains: {}', c.scores_by_rule)
                t.check(not c.ignore or id(c) in ignored or least <= 0, 'a candidate was discarded: {}', c.scores_by_rule)
            else:
                t.check(c.ignore == (id(c) in ignored), 'a candidate of a decided address was discarded or came back')
    t.step(n)
    t.state(tuple(round(c.score(), 9) for v in program.values() for c in v))
    t.sample(program=names, candidates=lists)


HARNESSES = [Harness('counting', counting, 'every program of 1..2 (thorough 3) instructions over 4 (6) x wrong candidates x original '
                     'first or last x one wrong candidate discarded before or none, three counting rules; of 1..2 again with one candidate less'),
             Harness('control-flow', control_flow, 'candidate sets of at most 2 before, at and after an address, or no neighbour, from address 0 too, one of them discarded before or none; scored again with fewer neighbours'),
             Harness('register-distance', register_distance, 'programs of 2..3 (thorough 4) over 8, 4 (7, 3) instructions with at most one wrong candidate'),
             Harness('windows', windows, 'any of 5 least and 3 largest distances of two registers x 3 readers x programs of 3 and 5 with any 2 writers at two places, from address 0 too'),
             Harness('far', far, 'distances of 20..300 (thorough 2000) instructions, just inside and outside of those known'),
             Harness('unusual', unusual, 'coprocessor, vector and system instructions'),
             Harness('numerous', numerous, 'addresses with 15..65 wrong candidates'),
             Harness('wide', wide, '2 addresses over 7 and 2 words that use up to 12 registers x at most 2 wrong candidates'),
             Harness('one-by-one', one_by_one, '7 readers of up to 12 registers after 1..13 writers of one each, with or without holes'),
             Harness('legacy', legacy, 'programs of 1..3 with at most one wrong candidate, one or several passes')]
