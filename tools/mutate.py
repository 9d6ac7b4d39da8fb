"""Mutation testing of karabo_data by the checks.

    python3 tools/mutate.py cover OUTDIR            which check reaches which lines
    python3 tools/mutate.py run OUTDIR [-j N] [-n EXAMPLES] [-f FILE] [--only-survivors]
    python3 tools/mutate.py report OUTDIR

Each mutant is tried in a scratch copy of the package (KDV_REPO), with one worker of each check
which reaches its line, until one of them fails.
"""
import argparse, ast, json, os, random, shutil, signal, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = '/repo/karabo_data'
CHECKS = ['C%02d' % i for i in range(1, 29)]
SLOW = {'C22', 'C23', 'C24', 'C20', 'C10', 'C28'}


def files():
    out = []
    for root, dirs, fs in os.walk(PKG):
        dirs[:] = [d for d in dirs if d not in ('tests', '__pycache__')]
        out += [os.path.relpath(os.path.join(root, f), PKG) for f in fs if f.endswith('.py')]
    return sorted(out)


CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
       ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult,
       ast.FloorDiv: ast.Mult, ast.Mod: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}


def clone(node):
    return ast.parse(ast.unparse(node), mode='eval').body


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.out = []   # (lineno, col, endline, endcol, replacement, description)

    def add(self, node, text, what):
        self.out.append((node.lineno, node.col_offset, node.end_lineno, node.end_col_offset,
                         text, what))

    def expr(self, node, new, what):
        self.add(node, '(' + ast.unparse(new) + ')', what)

    def visit_FunctionDef(self, node):
        for d in node.args.defaults + node.args.kw_defaults:
            if d is not None:
                self.visit(d)
        self.body(node.body)

    def body(self, stmts):
        for st in stmts:
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                continue
            self.visit(st)

    def visit_Module(self, node):
        self.body(node.body)

    visit_ClassDef = visit_Module

    def visit_Expr(self, node):
        if not isinstance(node.value, (ast.Yield, ast.YieldFrom)):
            self.add(node, 'pass', 'drop statement')
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.add(node, 'pass', 'drop statement')
        self.generic_visit(node)

    def visit_Assign(self, node):
        if isinstance(node.targets[0], (ast.Attribute, ast.Subscript)):
            self.add(node, 'pass', 'drop statement')
        self.generic_visit(node)

    def visit_Continue(self, node):
        self.add(node, 'pass', 'drop continue')

    def visit_Break(self, node):
        self.add(node, 'pass', 'drop break')

    def visit_Raise(self, node):
        self.add(node, 'pass', 'drop raise')

    def visit_Return(self, node):
        if node.value is not None and not isinstance(node.value, ast.Constant):
            self.add(node, 'return None', 'return None')
        self.generic_visit(node)

    def cond(self, node):
        t = node.test
        self.add(t, 'True', 'condition True')
        self.add(t, 'False', 'condition False')

    def visit_If(self, node):
        self.cond(node)
        self.visit(node.test)
        self.body(node.body)
        self.body(node.orelse)

    def visit_IfExp(self, node):
        self.cond(node)
        self.generic_visit(node)

    def visit_comprehension(self, node):
        for i in node.ifs:
            self.add(i, 'True', 'drop filter')
        self.generic_visit(node)

    def visit_Compare(self, node):
        for i, op in enumerate(node.ops):
            if type(op) in CMP:
                new = clone(node)
                new.ops[i] = CMP[type(op)]()
                self.expr(node, new, 'compare')
        self.generic_visit(node)

    def visit_BinOp(self, node):
        if type(node.op) in BIN and not (isinstance(node.op, ast.Mod)
                                         and isinstance(node.left, ast.Constant)):
            new = clone(node)
            new.op = BIN[type(node.op)]()
            self.expr(node, new, 'operator')
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        new = clone(node)
        new.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        self.expr(node, new, 'and/or')
        for i in range(len(node.values)):
            new = clone(node)
            del new.values[i]
            self.expr(node, new if len(new.values) > 1 else new.values[0], 'drop operand')
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, (ast.Not, ast.USub)):
            self.expr(node, clone(node.operand), 'drop ' + type(node.op).__name__)
        self.generic_visit(node)

    def visit_Constant(self, node):
        v = node.value
        if v is True or v is False:
            self.add(node, str(not v), 'flip')
        elif isinstance(v, int):
            self.add(node, '(%d)' % (v + 1), '+1')
            if v:
                self.add(node, '(%d)' % (v - 1), '-1')
        elif isinstance(v, float):
            self.add(node, '(%r)' % (v * 1.5 + 1), 'float')

    def visit_JoinedStr(self, node):
        pass

    def visit_Call(self, node):
        f = node.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
        if name in ('warn', 'debug', 'print'):
            if name != 'print':
                return
        for i in range(len(node.keywords)):
            new = clone(node)
            del new.keywords[i]
            self.expr(node, new, 'drop keyword')
        if isinstance(f, ast.Name) and name == 'sorted' and node.args:
            self.add(node, 'list(%s)' % ast.unparse(node.args[0]), 'unsorted')
        if isinstance(f, ast.Name) and name in ('min', 'max', 'any', 'all'):
            new = clone(node)
            new.func.id = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any'}[name]
            self.expr(node, new, 'min/max/any/all')
        if isinstance(f, ast.Attribute) and name == 'copy' and not node.args:
            self.add(node, ast.unparse(f.value), 'no copy')
        if isinstance(f, ast.Attribute) and name in ('min', 'max', 'any', 'all', 'union',
                                                     'intersection'):
            new = clone(node)
            new.func.attr = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any',
                             'union': 'intersection', 'intersection': 'union'}[name]
            self.expr(node, new, name)
        if len(node.args) == 2 and not any(isinstance(a, ast.Starred) for a in node.args) \
                and not node.keywords and name not in ('isinstance', 'print'):
            new = clone(node)
            new.args.reverse()
            self.expr(node, new, 'swap arguments')
        self.generic_visit(node)

    def visit_Slice(self, node):
        for part in ('lower', 'upper', 'step'):
            if getattr(node, part) is not None:
                new = ast.Slice(node.lower, node.upper, node.step)
                setattr(new, part, None)
                txt = ':'.join(ast.unparse(x) if x else '' for x in (new.lower, new.upper)) + (
                    ':' + ast.unparse(new.step) if new.step else '')
                self.add(node, txt, 'slice without ' + part)
        self.generic_visit(node)


def mutants(fn):
    src = open(os.path.join(PKG, fn), encoding='utf-8').read()
    fi = Finder(src)
    fi.visit(ast.parse(src))
    lines = src.splitlines(True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    b = src.encode()
    out = []
    for n, (l, c, el, ec, text, what) in enumerate(fi.out):
        s, e = starts[l - 1] + c, starts[el - 1] + ec
        if b[s:e].decode() == text:
            continue
        new = (b[:s] + text.encode() + b[e:]).decode()
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        out.append({'id': '%s:%d:%d:%d' % (fn, l, c, n), 'file': fn, 'line': l, 'end': el,
                    'what': what, 'old': b[s:e].decode()[:200], 'new': text[:200], 'src': new})
    return out


def worker_cmd(check, n, workdir, seed=1):
    return [sys.executable, os.path.join(HERE, 'run_check.py'), check, '--worker', '0', '--n',
            str(n), '--seed', str(seed), '--tier', 'quick', '--workdir', workdir]


def cover(out):
    os.makedirs(out, exist_ok=True)

    def one(c):
        wd = tempfile.mkdtemp(prefix='kdvcov-', dir='/tmp')
        subprocess.run(worker_cmd(c, 80, wd), env=dict(os.environ, KDV_COV=os.path.join(
            out, 'cov-%s.json' % c)), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        shutil.rmtree(wd, ignore_errors=True)
        print(c, len(json.load(open(os.path.join(out, 'cov-%s.json' % c)))))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, CHECKS))


def try_mutant(m, cov, n, slow_n, seed=1):
    checks = [c for c in CHECKS
              if any((m['file'], l) in cov[c] for l in range(m['line'], m['end'] + 1))]
    checks.sort(key=lambda c: (c in SLOW, len(cov[c])))
    if not checks:
        return 'unreached', []
    repo = tempfile.mkdtemp(prefix='kdvmut-', dir='/tmp')
    try:
        shutil.copytree(PKG, os.path.join(repo, 'karabo_data'),
                        ignore=shutil.ignore_patterns('tests', '__pycache__'))
        with open(os.path.join(repo, 'karabo_data', m['file']), 'w') as f:
            f.write(m['src'])
        for c in checks:
            wd = tempfile.mkdtemp(prefix='wd-', dir=repo)
            os.chmod(repo, 0o755)
            os.chmod(wd, 0o755)
            env = dict(os.environ, KDV_REPO=repo, KDV_NOSHRINK='1', KDV_CASE_S='20',
                       KDV_SCRATCH=repo)
            p = subprocess.Popen(worker_cmd(c, slow_n if c in SLOW else n, wd, seed), env=env,
                                 stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                 start_new_session=True)
            try:
                p.wait(400)
                timeout = False
            except subprocess.TimeoutExpired:
                timeout = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            if any(f.startswith('fail-') for f in os.listdir(wd)):
                return 'killed', [c]
            if timeout:
                return 'timeout', [c]
            try:
                st = json.load(open(os.path.join(wd, 'res-0.json')))['status']
            except FileNotFoundError:
                return 'died', [c]
            if st != 'ok':
                return 'harness', [c]
        return 'survived', checks
    finally:
        shutil.rmtree(repo, ignore_errors=True)


def run(out, jobs, n, slow_n, only, survivors, seed):
    cov = {c: {tuple(x) for x in json.load(open(os.path.join(out, 'cov-%s.json' % c)))}
           for c in CHECKS if os.path.exists(os.path.join(out, 'cov-%s.json' % c))}
    for c in CHECKS:
        cov.setdefault(c, set())
    rf = os.path.join(out, 'results.json')
    res = json.load(open(rf)) if os.path.exists(rf) else {}
    todo = []
    for fn in files():
        if only and fn not in only:
            continue
        for m in mutants(fn):
            old = res.get(m['id'])
            if old is None and not survivors:
                todo.append(m)
            elif old and survivors and old['result'] in ('survived', 'timeout', 'died'):
                todo.append(m)
    random.Random(1).shuffle(todo)
    print(len(todo), 'mutants')
    done = 0
    with ThreadPoolExecutor(jobs) as ex:
        def one(m):
            nonlocal done
            r, c = try_mutant(m, cov, n, slow_n, seed)
            res[m['id']] = {k: m[k] for k in ('file', 'line', 'what', 'old', 'new')}
            res[m['id']].update(result=r, checks=c)
            done += 1
            if done % 20 == 0:
                with open(rf + '.tmp', 'w') as f:
                    json.dump(dict(res), f, indent=0)
                os.replace(rf + '.tmp', rf)
            if done % 100 == 0:
                print(done, 'done', flush=True)
        list(ex.map(one, todo))
    with open(rf, 'w') as f:
        json.dump(res, f, indent=0)


def report(out):
    res = json.load(open(os.path.join(out, 'results.json')))
    n = {}
    for r in res.values():
        n[r['result']] = n.get(r['result'], 0) + 1
    print(n)
    for k in sorted(res, key=lambda k: (res[k]['file'], res[k]['line'])):
        r = res[k]
        if r['result'] not in ('killed',):
            print('%s %s:%d %s: %s -> %s %s' % (r['result'], r['file'], r['line'], r['what'],
                                                r['old'].replace('\n', ' ')[:90],
                                                r['new'].replace('\n', ' ')[:90],
                                                ','.join(r['checks'])))


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('out')
    ap.add_argument('-j', type=int, default=7)
    ap.add_argument('-n', type=int, default=60)
    ap.add_argument('-s', type=int, default=15)
    ap.add_argument('-f', action='append')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--survivors', action='store_true')
    a = ap.parse_args()
    if a.cmd == 'cover':
        cover(a.out)
    elif a.cmd == 'run':
        run(a.out, a.j, a.n, a.s, a.f, a.survivors, a.seed)
    else:
        report(a.out)
