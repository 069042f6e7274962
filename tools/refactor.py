"""
Quietness: rewrites every source file of a scratch copy of the repository in ways that keep the behaviour, and runs the checks
against it. They have to stay quiet.

    refactor.py [CHECK...]        KINDS=wrap,swap,... (all), one copy for each kind; JOBS=2
"""
import ast
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
from mutate import CHECKS


class Wrap(ast.NodeTransformer):
    """The body of every plain function goes to a helper"""
    def __init__(self):
        self.inside = 0

    def visit_ClassDef(self, n):
        n.body = [y for x in n.body for y in self.split(x, True)]
        return n

    def visit_Module(self, n):
        n.body = [y for x in n.body for y in (self.split(x, False) if isinstance(x, ast.FunctionDef) else [self.visit(x)])]
        return n

    def visit_FunctionDef(self, n):
        return n

    def split(self, f, method):
        if not isinstance(f, ast.FunctionDef):
            return [f]
        text = ast.dump(f)
        a = f.args
        if f.name.startswith('__') or a.vararg or a.kwarg or a.kwonlyargs or 'Nonlocal' in text or "id='super'" in text or \
                'Yield' in text or f.decorator_list:
            return [f]
        names = [x.arg for x in a.args]
        helper = ast.FunctionDef(name='_do_' + f.name, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in names],
                                 kwonlyargs=[], kw_defaults=[], defaults=[]), body=f.body, decorator_list=[])
        if method:
            target = ast.Attribute(value=ast.Name(id=names[0], ctx=ast.Load()), attr=helper.name, ctx=ast.Load())
            names = names[1:]
        else:
            target = ast.Name(id=helper.name, ctx=ast.Load())
        f.body = [ast.Return(value=ast.Call(func=target, args=[ast.Name(id=x, ctx=ast.Load()) for x in names], keywords=[]))]
        # a helper that is overridden would be taken for another
        helper.name = target.id if not method else target.attr
        return [helper, f]


class Swap(ast.NodeTransformer):
    """if c: A else: B  ->  if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            n.test, n.body, n.orelse = ast.UnaryOp(op=ast.Not(), operand=n.test), n.orelse, n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        n.test, n.body, n.orelse = ast.UnaryOp(op=ast.Not(), operand=n.test), n.orelse, n.body
        return n


class Name(ast.NodeTransformer):
    """What is returned or tested gets a name first"""
    def visit_Return(self, n):
        if n.value is None:
            return n
        return [ast.Assign(targets=[ast.Name(id='the_answer', ctx=ast.Store())], value=n.value),
                ast.Return(value=ast.Name(id='the_answer', ctx=ast.Load()))]

    def visit_If(self, n):
        self.generic_visit(n)
        return [ast.Assign(targets=[ast.Name(id='the_question', ctx=ast.Store())], value=n.test),
                ast.If(test=ast.Name(id='the_question', ctx=ast.Load()), body=n.body, orelse=n.orelse)]


class Turn(ast.NodeTransformer):
    """a < b  ->  b > a,  a in b  ->  not (a not in b)"""
    OPS = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    NOT = {ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) > 1:
            return n
        k = type(n.ops[0])
        if k in self.OPS:
            return ast.Compare(left=n.comparators[0], ops=[self.OPS[k]()], comparators=[n.left])
        return ast.UnaryOp(op=ast.Not(), operand=ast.Compare(left=n.left, ops=[self.NOT[k]()], comparators=n.comparators))

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        other = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        if len(n.values) == 2 and all(isinstance(x, (ast.Compare, ast.UnaryOp)) for x in n.values):
            return ast.UnaryOp(op=ast.Not(), operand=ast.BoolOp(op=other, values=[
                ast.UnaryOp(op=ast.Not(), operand=x) for x in n.values]))
        return n


class Loop(ast.NodeTransformer):
    """List comprehensions become loops, for loops go over an iterator with a while loop"""
    def __init__(self):
        self.count = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        self.count += 1
        it, no = 'it_%d' % self.count, 'no_%d' % self.count
        name = lambda x, c=ast.Load: ast.Name(id=x, ctx=c())
        call = lambda f, *a: ast.Call(func=name(f), args=list(a), keywords=[])
        item = 'item_%d' % self.count
        return [ast.Assign(targets=[name(it, ast.Store)], value=call('iter', n.iter)),
                ast.Assign(targets=[name(no, ast.Store)], value=call('object')),
                ast.While(test=ast.Constant(value=True), orelse=[], body=[
                    ast.Assign(targets=[name(item, ast.Store)], value=call('next', name(it), name(no))),
                    ast.If(test=ast.Compare(left=name(item), ops=[ast.Is()], comparators=[name(no)]), body=[ast.Break()], orelse=[]),
                    ast.Assign(targets=[n.target], value=name(item))] + n.body)]


class Early(ast.NodeTransformer):
    """for x in y: if c: A  ->  for x in y: if not c: continue; A"""
    def visit_For(self, n):
        self.generic_visit(n)
        if n.body and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse:
            last = n.body[-1]
            n.body = n.body[:-1] + [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=last.test), body=[ast.Continue()], orelse=[])] + last.body
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if n.body and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse:
            last = n.body[-1]
            n.body = n.body[:-1] + [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=last.test), body=[ast.Return()], orelse=[])] + last.body
        return n


KINDS = {'wrap': Wrap, 'swap': Swap, 'name': Name, 'turn': Turn, 'loop': Loop, 'early': Early}


def one(kind, checks):
    d, copy = plant.scratch_copy()
    res = []
    try:
        for f in CHECKS:
            full = os.path.join(copy, f)
            tree = KINDS[kind]().visit(ast.parse(open(full).read()))
            open(full, 'w').write(ast.unparse(ast.fix_missing_locations(tree)) + '\n')
        import json
        res.append((kind, 'tests', plant.missing_tests(copy, d, json.load(open('/opt/vp/BASELINE.json'))['stable'])))
        for c in checks:
            r = subprocess.run([os.path.join(plant.VERIF, 'check'), c, 'quick'], capture_output=True, text=True,
                               env=dict(os.environ, MC_REPO=copy))
            if r.returncode:
                res.append((kind, c, r.returncode, (r.stdout + r.stderr)[-700:]))
    finally:
        shutil.rmtree(d)
    return res


def main():
    checks = sys.argv[1:] or sorted(x[:-3] for x in os.listdir(os.path.join(plant.VERIF, 'mc', 'checks')) if x.startswith('C'))
    kinds = os.environ.get('KINDS', ','.join(KINDS)).split(',')
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '2'))) as pool:
        for res in pool.map(lambda k: one(k, checks), kinds):
            for r in res:
                print(*r, sep='  ', flush=True)


if __name__ == '__main__':
    main()
