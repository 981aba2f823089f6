"""Mutation testing of the checks (never run by a check).

  mutate.py list FILE                  the mutants of plycutter/FILE
  mutate.py run OUT JOBS FILE:C01,C02[:SAMPLE] ...
                                       run the quick checks on each mutant
"""
import ast
import concurrent.futures as cf
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'],
       ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'],
       ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.BitAnd: '|', ast.BitOr: '&', ast.Mod: '*', ast.FloorDiv: '*',
       ast.BitXor: '|'}
NAMES = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any',
         'sorted': 'list', 'reversed': 'list', 'argmax': 'argmin',
         'argmin': 'argmax', 'ceil': 'floor', 'floor': 'ceil',
         'abs': '+', 'polygons': 'polygons'}
SKIP = ('show2d', 'do_show', 'show', 'plot', '__repr__', 'debug', 'plot2d')


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.splitlines(True)
        self.start = [0]
        for x in self.lines:
            self.start.append(self.start[-1] + len(x))
        self.out = []
        self.fn = []

    def pos(self, line, col):
        return self.start[line - 1] + len(
            self.lines[line - 1].encode()[:col].decode())

    def span(self, n):
        return (self.pos(n.lineno, n.col_offset),
                self.pos(n.end_lineno, n.end_col_offset))

    def text(self, n):
        a, b = self.span(n)
        return self.src[a:b]

    def add(self, a, b, new, what):
        if self.src[a:b] != new:
            self.out.append((a, b, new, what, '.'.join(self.fn)))

    def visit_FunctionDef(self, n):
        if any(n.name.startswith(x) for x in SKIP):
            return
        self.fn.append(n.name)
        self.generic_visit(n)
        self.fn.pop()

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        self.generic_visit(n)
        self.fn.pop()

    def visit_Assert(self, n):
        pass

    def between(self, left, right, new, what):
        a = self.span(left)[1]
        b = self.span(right)[0]
        old = self.src[a:b]
        core = old.strip(' \n\\()')
        if not core:
            return
        i = a + old.index(core)
        self.add(i, i + len(core), new, what)

    def visit_Compare(self, n):
        left = n.left
        for op, right in zip(n.ops, n.comparators):
            for new in CMP.get(type(op), []):
                self.between(left, right, new, 'compare')
            left = right
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN and not (
                isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
            self.between(n.left, n.right, BIN[type(n.op)], 'operator')
            a, b = self.span(n)
            self.add(a, b, '(' + self.text(n.left) + ')', 'left only')
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        if type(n.op) in BIN:
            a, b = self.span(n.target)[1], self.span(n.value)[0]
            new = {'-': ' -= ', '+': ' += ', '|': ' |= ', '&': ' &= ',
                   '/': ' /= ', '*': ' *= '}[BIN[type(n.op)]]
            self.add(a, b, new, 'operator')
        self.drop(n)
        self.generic_visit(n)

    def drop(self, n):
        a, b = self.span(n)
        self.add(a, b, 'pass', 'statement dropped')

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        t = self.text(n)
        if t.startswith(('logger.', 'logging.', 'print', 'warnings.')):
            return
        self.drop(n)
        self.generic_visit(n)

    def visit_Continue(self, n):
        self.drop(n)

    def visit_Break(self, n):
        self.drop(n)

    def visit_If(self, n):
        a, b = self.span(n.test)
        self.add(a, b, 'True', 'condition')
        self.add(a, b, 'False', 'condition')
        self.generic_visit(n)

    def visit_While(self, n):
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        new = 'or' if isinstance(n.op, ast.And) else 'and'
        for u, v in zip(n.values, n.values[1:]):
            self.between(u, v, new, 'bool')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        a, b = self.span(n)
        if isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            self.add(a, b, '(' + self.text(n.operand) + ')', 'unary')
        self.generic_visit(n)

    def visit_Constant(self, n):
        a, b = self.span(n)
        v = n.value
        if isinstance(v, bool):
            self.add(a, b, str(not v), 'constant')
        elif isinstance(v, (int, float)):
            self.add(a, b, repr(v + 1), 'constant')
            if v not in (0, 1):
                self.add(a, b, repr(v * 2), 'constant')

    def visit_Name(self, n):
        if n.id in NAMES and isinstance(n.ctx, ast.Load):
            a, b = self.span(n)
            self.add(a, b, NAMES[n.id], 'name')

    def visit_Attribute(self, n):
        if n.attr in NAMES:
            a, b = self.span(n)
            self.add(b - len(n.attr), b, NAMES[n.attr], 'name')
        self.generic_visit(n)

    def visit_Return(self, n):
        self.generic_visit(n)

    def visit_Import(self, n):
        pass

    visit_ImportFrom = visit_Import


def mutants(f):
    src = open(os.path.join('/repo/plycutter', f)).read()
    v = Finder(src)
    v.visit(ast.parse(src))
    out = []
    for a, b, new, what, fn in v.out:
        m = src[:a] + new + src[b:]
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        line = src.count('\n', 0, a) + 1
        out.append({'file': f, 'line': line, 'fn': fn, 'what': what,
                    'old': src[a:b][:80], 'new': new[:80], 'src': m,
                    'id': hashlib.sha1((f + m).encode()).hexdigest()[:10]})
    return out


def one(m, checks):
    d = tempfile.mkdtemp(prefix='plymut-', dir='/tmp')
    res = {k: v for k, v in m.items() if k != 'src'}
    try:
        shutil.copytree('/repo/plycutter', d + '/repo/plycutter',
                        ignore=shutil.ignore_patterns('__pycache__', 'tests'))
        with open(os.path.join(d, 'repo/plycutter', m['file']), 'w') as f:
            f.write(m['src'])
        shutil.copytree(os.path.join(ROOT, 'pbt'), d + '/v/pbt')
        env = dict(os.environ, PLY_REPO=d + '/repo', PLY_SHRINK='0',
                   PLY_WORKERS=os.environ.get('PLY_WORKERS', '4'),
                   VERIF_BUDGET='900', VERIF_SEED='1', TMPDIR=d)
        res['res'] = 'survived'
        for c in checks:
            try:
                p = subprocess.run(['python3', 'pbt/check.py', c, 'quick'],
                                   cwd=d + '/v', env=env, text=True,
                                   capture_output=True, timeout=1500)
            except subprocess.TimeoutExpired:
                res['res'] = 'timeout ' + c
                break
            if 'time budget reached' in p.stdout + p.stderr:
                res['late'] = c
            if p.returncode == 1:
                res['res'] = 'caught ' + c
                break
            if p.returncode != 0:
                res['res'] = 'error ' + c
                res['err'] = p.stderr[-1500:]
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def main():
    if sys.argv[1] == 'list':
        for m in mutants(sys.argv[2]):
            print(m['line'], m['fn'], m['what'], repr(m['old']), '->',
                  repr(m['new']))
        return
    out, jobs = sys.argv[2], int(sys.argv[3])
    only = None
    if os.environ.get('ONLY'):
        only = set(open(os.environ['ONLY']).read().split())
    done = set()
    if os.path.exists(out):
        done = {json.loads(x)['id'] for x in open(out)}
    todo = []
    for spec in sys.argv[4:]:
        f, cs, *n = spec.split(':')
        ms = mutants(f)
        if n:
            random.seed(7)
            random.shuffle(ms)
            ms = ms[:int(n[0])]
        todo += [(m, cs.split(',')) for m in ms if m['id'] not in done and
                 (only is None or m['id'] in only)]
    print(len(todo), 'mutants', flush=True)
    with cf.ThreadPoolExecutor(jobs) as ex, open(out, 'a') as f:
        for r in cf.as_completed([ex.submit(one, m, c) for m, c in todo]):
            f.write(json.dumps(r.result()) + '\n')
            f.flush()


main()
