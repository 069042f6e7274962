"""
Mutation sweep: small edits of every source file, one at a time, in scratch copies of the repository. For each one that
keeps the stable tests passing, runs the checks of the file until one sees it. What no check sees is read by hand: it is
either equivalent, outside of the properties, or a gap of the checks.

    mutate.py OUT.jsonl [FILE...]        JOBS=4 MC_WORKERS=1 PARTS=4 PART=0 (every fourth)  MUTATE_VERIF=copy of /verif
"""
import ast
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import warnings
from concurrent.futures import ThreadPoolExecutor, as_completed

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant

A = 'semantic_codec/'
CHECKS = {
    A + 'interleaver/interleaver2d.py': 'C01 C02 C04 C05 C45 C03 C11',
    A + 'architecture/bits.py': 'C06 C07 C08 C09 C35 C01 C02',
    A + 'corruption/corruption.py': 'C03 C08 C09 C10 C12 C11',
    A + 'corruption/corruptors.py': 'C11 C10 C12 C42',
    A + 'metadata/recuperator.py': 'C15 C48 C49 C47 C50 C51 C14 C19 C13 C42',
    A + 'metadata/metadata_collector.py': 'C16 C17 C18',
    A + 'metadata/probabilistic_model.py': 'C48 C19 C14 C13',
    A + 'metadata/probabilistic_rules/counting_rules.py': 'C19 C31',
    A + 'metadata/probabilistic_rules/rules.py': 'C44 C19 C31',
    A + 'metadata/probabilistic_rules/distance_rule.py': 'C19 C31',
    A + 'solution/solution_builders.py': 'C22 C23 C25 C42',
    A + 'solution/solution_io.py': 'C20 C21',
    A + 'solution/solution_quality.py': 'C24',
    A + 'static_analysis/cfg.py': 'C29 C30 C28',
    A + 'static_analysis/dominators.py': 'C26 C27',
    A + 'static_analysis/ssa.py': 'C28',
    A + 'static_analysis/value_dependency.py': 'C28',
    A + 'architecture/instruction.py': 'C46 C32 C33 C16 C30 C37 C29',
    A + 'architecture/capstone_instruction.py': 'C46 C32 C33 C16 C30 C37 C29',
    A + 'architecture/arm_instruction.py': 'C32 C33',
    A + 'architecture/arm_constants.py': 'C32 C33',
    A + 'architecture/functions.py': 'C34 C44',
    A + 'architecture/disassembler_readers.py': 'C34 C35',
    A + 'architecture/instruction_modifier.py': 'C37',
    A + 'compressor/huffman.py': 'C36 C43',
    A + 'compressor/shiftcompressor.py': 'C41',
    A + 'probability/probabilities.py': 'C38',
    A + 'report/print_progress.py': 'C40',
    'libs/dot/dotio.py': 'C39',
    'recover_program.py': 'C52 C15 C42 C53',
    'store_packets.py': 'C53',
}
VERIF = os.environ.get('MUTATE_VERIF', plant.VERIF)
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']

CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<'], ast.Gt: ['>=', '<='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['+'], ast.Div: ['*'], ast.FloorDiv: ['*'], ast.Mod: ['+'],
       ast.LShift: ['>>'], ast.RShift: ['<<'], ast.BitAnd: ['|'], ast.BitOr: ['&'], ast.BitXor: ['|'], ast.Pow: ['*']}


def mutants(text):
    """[(start, end, replacement)] in the text"""
    lines = [0]
    for l in text.splitlines(True):
        lines.append(lines[-1] + len(l.encode()))
    raw = text.encode()

    def span(n):
        return lines[n.lineno - 1] + n.col_offset, lines[n.end_lineno - 1] + n.end_col_offset

    def src(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []
    tree = ast.parse(text)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            docs.add(id(n.body[0]))
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for r in CMP.get(type(n.ops[0]), []):
                out.append(span(n) + ('(%s %s %s)' % (src(n.left), r, src(n.comparators[0])),))
        elif isinstance(n, ast.BinOp):
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            for r in BIN.get(type(n.op), []):
                out.append(span(n) + ('(%s %s %s)' % (src(n.left), r, src(n.right)),))
        elif isinstance(n, ast.AugAssign):
            for r in BIN.get(type(n.op), []):
                out.append(span(n) + ('%s %s= %s' % (src(n.target), r, src(n.value)),))
            out.append(span(n) + ('pass',))
        elif isinstance(n, ast.BoolOp):
            r = ' or ' if isinstance(n.op, ast.And) else ' and '
            out.append(span(n) + ('(' + r.join('(%s)' % src(v) for v in n.values) + ')',))
            for i in range(len(n.values)):
                j = ' and ' if isinstance(n.op, ast.And) else ' or '
                out.append(span(n) + ('(' + j.join('(%s)' % src(v) for k, v in enumerate(n.values) if k != i) + ')',))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append(span(n) + ('(%s)' % src(n.operand),))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                out.append(span(n) + (str(not n.value),))
            elif isinstance(n.value, (int, float)):
                out.append(span(n) + ('%r' % (n.value + 1),))
                if n.value:
                    out.append(span(n) + ('%r' % (n.value - 1),))
        elif isinstance(n, (ast.If, ast.While)):
            out.append(span(n.test) + ('(not (%s))' % src(n.test),))
            if isinstance(n, ast.If):
                out.append(span(n.test) + ('False',))
                out.append(span(n.test) + ('True',))
        elif isinstance(n, ast.Break):
            out.append(span(n) + ('pass',))
        elif isinstance(n, ast.Continue):
            out.append(span(n) + ('pass',))
            out.append(span(n) + ('break',))
        elif isinstance(n, ast.Slice):
            for e in (n.lower, n.upper):
                if e is not None:
                    out.append(span(e) + ('(%s) + 1' % src(e),))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'reversed', 'set', 'abs') \
                and len(n.args) == 1 and not n.keywords:
            out.append(span(n) + ('list(%s)' % src(n.args[0]) if n.func.id != 'abs' else '(%s)' % src(n.args[0]),))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('min', 'max'):
            out.append(span(n.func) + ('max' if n.func.id == 'min' else 'min',))
        elif isinstance(n, ast.Return) and n.value is not None:
            out.append(span(n) + ('return None',))
        if isinstance(n, (ast.Expr, ast.Assign)) and id(n) not in docs:
            out.append(span(n) + ('pass',))
    seen, res = set(), []
    for a, b, r in out:
        new = (raw[:a] + r.encode() + raw[b:])
        if new == raw or new in seen:
            continue
        seen.add(new)
        try:
            compile(new, 'x', 'exec')
        except (SyntaxError, ValueError):
            continue
        res.append((raw[:a].count(b'\n') + 1, raw[a:b].decode(), r, new))
    return res


pool = threading.local()
made = []


def copy():
    if not getattr(pool, 'dir', None):
        pool.dir, pool.repo = plant.scratch_copy()
        made.append(pool.dir)
    return pool.repo


def examine(job):
    path, line, old, new, text = job
    repo = copy()
    full = os.path.join(repo, path)
    saved = open(full, 'rb').read()
    try:
        open(full, 'wb').write(text)
        d = tempfile.mkdtemp(prefix='mutate.')
        try:
            missing = plant.missing_tests(repo, d, STABLE, 10)
        except Exception as e:
            missing = [str(e)]
        finally:
            shutil.rmtree(d)
        if missing:
            return dict(file=path, line=line, old=old, new=new, result='tests')
        env = dict(os.environ, MC_REPO=repo)
        for c in CHECKS[path].split():
            try:
                r = subprocess.run(['timeout', '-k', '5', '400', os.path.join(VERIF, 'check'), c, 'quick'], env=env,
                                   capture_output=True, text=True)
            except Exception as e:
                return dict(file=path, line=line, old=old, new=new, result='error %s' % e)
            if r.returncode == 1:
                return dict(file=path, line=line, old=old, new=new, result='caught ' + c)
            if r.returncode:
                return dict(file=path, line=line, old=old, new=new, result='exit %d %s' % (r.returncode, c), out=(r.stdout + r.stderr)[-300:])
        return dict(file=path, line=line, old=old, new=new, result='SURVIVED')
    finally:
        open(full, 'wb').write(saved)


if __name__ == '__main__':
    warnings.simplefilter('ignore')
    out = sys.argv[1]
    done = set()
    if os.path.exists(out):
        done = {(j['file'], j['line'], j['old'], j['new']) for j in map(json.loads, open(out))}
    jobs = []
    for f in sys.argv[2:] or CHECKS:
        for line, old, new, text in mutants(open(os.path.join(plant.REPO, f), newline='').read()):
            part = hashlib.md5(repr((f, line, old, new)).encode()).digest()[0] % int(os.environ.get('PARTS', '1'))
            if (f, line, old, new) not in done and part == int(os.environ.get('PART', '0')):
                jobs.append((f, line, old, new, text))
    print(len(jobs), 'mutants', flush=True)
    try:
        with ThreadPoolExecutor(int(os.environ.get('JOBS', '4'))) as ex, open(out, 'a') as o:
            for r in as_completed([ex.submit(examine, j) for j in jobs]):
                o.write(json.dumps(r.result()) + '\n')
                o.flush()
    finally:
        for d in made:
            shutil.rmtree(d, ignore_errors=True)
