"""Mutation analysis: small syntactic changes to /repo's Python files, one at a time, in scratch copies.

    tools/mutate.py OUT.jsonl N SEED [-j WORKERS] [FILE-REGEX]

For each mutant: the tests next to the file (stop if they notice), then the checks which cover the file (stop at the
first violation), then all tests. What is left ("survived") is a change neither the tests nor the checks notice: either
it changes no behaviour or it shows a gap. Nothing here is read by a check."""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

R = '/repo'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [
    (r'ops/_basics|ops/_gates|ops/_metagates', 'C08 C09 C29 C14 C23 C17'),
    (r'ops/_command', 'C09 C29 C14 C10'),
    (r'ops/_qubit_operator', 'C19 C08 C29'),
    (r'ops/_time_evolution', 'C20 C08 C29'),
    (r'ops/_uniformly|ops/_state_prep', 'C21 C08 C29'),
    (r'ops/_q', 'C08 C11 C29'),
    (r'decompositions/(time_ev|qubitop)', 'C11 C20'),
    (r'decompositions/(stateprep|uniformly|arb1|carb1)', 'C11 C21'),
    (r'setups/decompositions', 'C11 C12'),
    (r'setups/', 'C12 C22'),
    (r'cengines/_replacer', 'C11 C12 C29 C28'),
    (r'cengines/_optimize', 'C10 C29 C15'),
    (r'cengines/_(linear|twod|ibm5|basicm|manual|swapand)', 'C13 C16'),
    (r'cengines/_main|cengines/_basics\.|types/', 'C15 C16 C29 C18 C28'),
    (r'cengines/', 'C18 C12'),
    (r'meta/', 'C14 C29 C15 C28'),
    (r'_sim/_classical', 'C25 C29 C16'),
    (r'_sim/_pysim', 'C02 C04 C03 C07 C29'),
    (r'_sim/_simulator', 'C04 C01 C03 C16 C29 C07'),
    (r'_unitary', 'C24 C29'),
    (r'_resource', 'C17'),
    (r'_printer', 'C18 C16'),
    (r'_circuits', 'C23 C18 C16'),
    (r'backends/_(aqt|ibm|ionq|aws|azure)|libs/hist', 'C22 C13'),
    (r'libs/math', 'C27 C07 C11 C08 C29'),
    (r'libs/revkit', 'C26'),
]


def files():
    out = subprocess.run(['git', '-C', R, 'ls-files', 'projectq/*.py'], capture_output=True, text=True).stdout.split()
    return [f for f in out if not re.search(r'_test\.py|/tests/|fixtures|_testengine|__init__|_version', f)]


CMP = {'Lt': '<=', 'LtE': '<', 'Gt': '>=', 'GtE': '>', 'Eq': '!=', 'NotEq': '==', 'In': 'not in', 'NotIn': 'in', 'Is': 'is not', 'IsNot': 'is'}
BIN = {'Add': '-', 'Sub': '+', 'Mult': '/', 'Div': '*', 'FloorDiv': '%', 'Mod': '//', 'LShift': '>>', 'RShift': '<<', 'BitAnd': '|', 'BitOr': '&', 'BitXor': '|', 'Pow': '*'}


def mutants(src):
    """[(line, description, new source)]"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x))
    pos = lambda l, c: off[l - 1] + len(lines[l - 1].encode()[:c].decode())
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    text = lambda n: src[slice(*span(n))]
    out = []

    def rep(n, new, what):
        a, b = span(n)
        out.append((n.lineno, what + ': ' + ' '.join(text(n).split())[:80] + '  ->  ' + ' '.join(new.split())[:80], src[:a] + new + src[b:]))

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
            doc.add(n.body[0].value)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.add(n)
        if isinstance(n, ast.JoinedStr):
            for m in ast.walk(n):
                skip.add(m)
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                if m is not n:
                    skip.add(m)
    for n in ast.walk(tree):
        if n in doc or n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = type(n.ops[0]).__name__
            rep(n, '%s %s %s' % (text(n.left), CMP[op], text(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op).__name__ in BIN and not isinstance(n.left, (ast.Constant,)) | isinstance(getattr(n.left, 'value', None), str):
            rep(n, '(%s %s %s)' % (text(n.left), BIN[type(n.op).__name__], text(n.right)), 'bin')
        elif isinstance(n, ast.BoolOp):
            j = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + j.join('(%s)' % text(v) for v in n.values) + ')', 'bool')
            for k in range(len(n.values)):
                rest = [v for i, v in enumerate(n.values) if i != k]
                rep(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % text(v) for v in rest) + ')', 'drop operand')
        elif isinstance(n, ast.UnaryOp):
            if isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
                rep(n, '(%s)' % text(n.operand), 'unary')
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                rep(n, str(not n.value), 'const')
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), 'const')
                if n.value:
                    rep(n, str(n.value - 1), 'const')
            elif isinstance(n.value, float):
                rep(n, repr(n.value * 2 or 1e-3), 'const')
        elif isinstance(n, ast.Call):
            f = text(n.func)
            if f in ('reversed', 'sorted', 'list', 'deepcopy', 'copy.deepcopy', 'copy.copy', 'copy', 'set', 'int', 'abs', 'tuple') and len(n.args) >= 1:
                rep(n, '(%s)' % text(n.args[0]), 'call')
            if f.endswith('.copy') and not n.args:
                rep(n, '(%s)' % text(n.func.value), 'call')
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args) and text(n.args[0]) != text(n.args[1]) and f not in ('isinstance', 'getattr', 'hasattr', 'print'):
                a, b = span(n.args[0]), span(n.args[1])
                out.append((n.lineno, 'swap args: ' + ' '.join(text(n).split())[:80], src[:a[0]] + text(n.args[1]) + src[a[1]:b[0]] + text(n.args[0]) + src[b[1]:]))
            for k in n.keywords:
                if k.arg and not (isinstance(k.value, ast.Constant) and isinstance(k.value.value, str)):
                    a = span(n.args[-1])[1] if n.args else None
            if f in ('any', 'all', 'min', 'max'):
                rep(n.func, dict(any='all', all='any', min='max', max='min')[f], 'call')
        elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Raise, ast.Delete)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            rep(n, 'pass', 'delete')
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            rep(n, 'pass', 'delete')
        elif isinstance(n, ast.Break):
            rep(n, 'continue', 'loop')
        elif isinstance(n, ast.Continue):
            rep(n, 'break', 'loop')
            rep(n, 'pass', 'loop')
        elif isinstance(n, ast.IfExp):
            rep(n, '(%s)' % text(n.body), 'ifexp')
            rep(n, '(%s)' % text(n.orelse), 'ifexp')
        elif isinstance(n, ast.If):
            rep(n.test, 'False', 'if')
            rep(n.test, 'True', 'if')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and not n.slice.lower and not n.slice.upper:
            rep(n, text(n.value), 'slice')
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            pass
    # statements in another order, or one level further out
    def whole(n):
        return off[(min([n.lineno] + [d.lineno for d in getattr(n, 'decorator_list', [])])) - 1], off[n.end_lineno]

    simple = (ast.Assign, ast.AugAssign, ast.Expr, ast.If, ast.For, ast.With, ast.Delete)
    for n in ast.walk(tree):
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(n, field, None)
            if not isinstance(b, list) or isinstance(n, (ast.Module, ast.ClassDef)):
                continue
            for x, y in zip(b, b[1:]):
                if isinstance(x, simple) and isinstance(y, simple) and x not in doc and y.lineno > x.end_lineno:
                    (a, c), (d, e) = whole(x), whole(y)
                    out.append((x.lineno, 'swap: %s  <->  %s' % (' '.join(text(x).split())[:60], ' '.join(text(y).split())[:60]), src[:a] + src[d:e] + src[c:d] + src[a:c] + src[e:]))
            if isinstance(n, (ast.If, ast.For, ast.While, ast.With)) and field == 'body' and len(b) > 1 and isinstance(b[-1], simple) and not getattr(n, 'orelse', None):
                a, c = whole(b[-1])
                moved = ''.join(x[4:] if x.startswith('    ') else x for x in src[a:c].splitlines(keepends=True))
                out.append((b[-1].lineno, 'dedent: ' + ' '.join(text(b[-1]).split())[:80], src[:a] + moved + src[c:]))
            if isinstance(n, (ast.If, ast.For)) and field == 'body' and not getattr(n, 'orelse', None):
                a, c = whole(n)
                out.append((n.lineno, 'drop: ' + ' '.join(text(n).split())[:80], src[:a] + ' ' * n.col_offset + 'pass\n' + src[c:]))
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and not n.decorator_list and any(isinstance(m, ast.Return) and m.value is not None for m in ast.walk(n)) and not n.name.startswith('__'):
            a, c = whole(n)
            pad = ' ' * n.col_offset
            memo = (pad + 'def _memo(f):\n' + pad + '    import functools\n' + pad + '    kept = {}\n\n' + pad + '    @functools.wraps(f)\n' + pad + '    def g(*a, **k):\n' + pad + '        key = (id(a[0]) if a else 0, repr(a[1:]), repr(k))\n'
                    + pad + '        if key not in kept:\n' + pad + '            kept[key] = (a[:1], f(*a, **k))\n' + pad + '        return kept[key][1]\n\n' + pad + '    return g\n\n' + pad + '@_memo\n')
            out.append((n.lineno, 'memo: ' + n.name, src[:a] + memo + src[a:]))
    if os.environ.get('MUT_KINDS'):
        out = [x for x in out if x[1].split(':')[0] in os.environ['MUT_KINDS'].split(',')]
    ok = []
    for l, d, s in out:
        try:
            compile(s, 'x', 'exec')
        except SyntaxError:
            continue
        if s != src:
            ok.append((l, d, s))
    return ok


def pytest(copy, args, t):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    env.pop('PYTHONPATH', None)
    with tempfile.TemporaryDirectory() as w:
        try:
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60', '--basetemp=' + w + '/t'] + args, cwd=copy, env=env,
                               capture_output=True, text=True, timeout=t)
        except subprocess.TimeoutExpired:
            return 1
    return r.returncode


def judge(job):
    k, f, line, desc, src = job
    w = pool.pop()
    copy = w + '/repo'
    p = os.path.join(copy, f)
    old = open(p).read()
    res = dict(file=f, line=line, mutant=desc, n=k)
    try:
        open(p, 'w').write(src)
        own = f.replace('.py', '_test.py')
        if os.path.exists(os.path.join(copy, own)) and pytest(copy, [own], 200):
            res['result'] = 'test'
        else:
            checks = next(c for r, c in MAP if re.search(r, f)).split()
            for c in checks:
                e = dict(os.environ, VERIF_REPO=copy, VERIF_EVIDENCE=w + '/ev', VERIF_OUT=w + '/out', VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
                try:
                    r = subprocess.run(['./run.sh', c], cwd=V, env=e, capture_output=True, text=True, timeout=300)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 'timeout'
                if rc != 0:
                    res['result'] = 'check'
                    res['check'] = '%s:%s' % (c, rc)
                    res['keys'] = re.findall(r'^--- (.{0,100})', r.stdout, re.M)[:2] if rc == 1 else (r.stdout + r.stderr)[-300:] if rc != 'timeout' else ''
                    break
            else:
                res['result'] = 'test' if pytest(copy, ['projectq'], 400) else 'survived'
    finally:
        open(p, 'w').write(old)
        pool.append(w)
    with open(out, 'a') as g:
        g.write(json.dumps(res) + '\n')
    return res


if __name__ == '__main__':
    a = sys.argv[1:]
    j = 4
    if '-j' in a:
        i = a.index('-j')
        j = int(a[i + 1])
        del a[i:i + 2]
    out, n, seed = a[0], int(a[1]), a[2]
    pat = a[3] if len(a) > 3 else '.'
    rng = random.Random(seed)
    todo = []
    for f in files():
        if re.search(pat, f) and any(re.search(r, f) for r, _ in MAP):
            for l, d, s in mutants(open(os.path.join(R, f)).read()):
                todo.append((f, l, d, s))
    rng.shuffle(todo)
    # round robin over the files
    seen = {}
    rank = []
    for t in todo:
        seen[t[0]] = seen.get(t[0], 0) + 1
        rank.append((seen[t[0]], len(rank)))
    todo = [todo[i] for _, i in sorted(rank)]
    print(len(todo), 'mutants')
    base = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    pool = []
    for i in range(j):
        w = '%s/w%d' % (base, i)
        os.makedirs(w)
        shutil.copytree(R, w + '/repo', symlinks=True, ignore=shutil.ignore_patterns('.git'))
        pool.append(w)
    try:
        with ThreadPoolExecutor(j) as ex:
            list(ex.map(judge, [(k,) + t for k, t in enumerate(todo[:n])]))
    finally:
        shutil.rmtree(base)
