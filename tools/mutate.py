"""Dev tool (never used by a check): small source mutants that survive the test suite, against the checks.

usage: python3 tools/mutate.py OUT.jsonl JOBS N SEED file[:func,func] ...  -- C01 C02 ...
Each mutant is one changed AST node; those that the 346 tests kill are dropped; for the rest the
listed checks run with reduced counts (VERIF_SCALE), one worker each, until one reports.
"""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import queue, threading
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCALE = os.environ.get('SCALE', '0.3')
CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.FloorDiv: ast.Mult, ast.BitAnd: ast.BitOr,
       ast.BitOr: ast.BitAnd, ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.Mod: ast.Mult, ast.Div: ast.Mult}


def variants(node):
    """(description, replacement node) for one node."""
    c = copy.deepcopy
    if isinstance(node, ast.Compare):
        for i, op in enumerate(node.ops):
            for new in CMP[type(op)]:
                n = c(node); n.ops[i] = new(); yield n
    elif isinstance(node, ast.BoolOp):
        n = c(node); n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And(); yield n
        for i in range(len(node.values)):
            rest = [v for j, v in enumerate(node.values) if j != i]
            yield c(rest[0]) if len(rest) == 1 else ast.BoolOp(c(node.op), c(rest))
    elif isinstance(node, ast.BinOp) and type(node.op) in BIN and not (
            isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
        n = c(node); n.op = BIN[type(node.op)](); yield n
    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield c(node.operand)
    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        yield c(node.operand)
    elif isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            yield ast.Constant(not v)
        elif isinstance(v, int):
            yield ast.Constant(v + 1)
            if v: yield ast.Constant(v - 1)
        elif isinstance(v, float):
            yield ast.Constant(v + 1)
        elif isinstance(v, str) and v:
            yield ast.Constant(v[:-1])
        elif isinstance(v, bytes) and v:
            yield ast.Constant(v[:-1])
    elif isinstance(node, (ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Raise, ast.Delete)):
        yield ast.Pass()
    elif isinstance(node, ast.Expr) and isinstance(node.value, (ast.Call, ast.Yield)):
        yield ast.Pass()
    elif isinstance(node, ast.Return) and node.value is not None:
        yield ast.Return(None)
    elif isinstance(node, (ast.If, ast.IfExp, ast.While)):
        t = node.test
        yield ('test', ast.Constant(True)) if isinstance(node, (ast.If, ast.IfExp)) else None
        yield ('test', ast.Constant(False))
    elif isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
        for a in ('lower', 'upper', 'step'):
            if getattr(node.slice, a) is not None:
                n = c(node); setattr(n.slice, a, None); yield n
    elif isinstance(node, ast.Call):
        if node.args and len(node.args) == 1 and isinstance(node.func, ast.Name) and node.func.id in (
                'int', 'float', 'str', 'sorted', 'list', 'set', 'tuple', 'bool', 'reversed'):
            yield c(node.args[0])
        if node.args and isinstance(node.func, ast.Attribute) and node.func.attr in (
                'copy', 'strip', 'upper', 'lower', 'lstrip', 'rstrip', 'replace', 'decode'):
            yield c(node.func.value)
        if not node.args and isinstance(node.func, ast.Attribute) and node.func.attr in (
                'copy', 'strip', 'upper', 'lower', 'lstrip', 'rstrip'):
            yield c(node.func.value)
        for i in range(len(node.keywords)):
            n = c(node); del n.keywords[i]; yield n


def docstrings(tree):
    s = set()
    for n in ast.walk(tree):
        b = getattr(n, 'body', None)
        if isinstance(b, list) and b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
            s.add(id(b[0].value))
    return s


def mutants(path, src, funcs, skip):
    tree = ast.parse(src)
    lines = src.splitlines(True)
    offs = [0]
    for l in lines: offs.append(offs[-1] + len(l.encode('utf-8')))
    raw = src.encode('utf-8')
    docs = docstrings(tree)
    owner = {}
    def walk(n, name):
        for ch in ast.iter_child_nodes(n):
            nm = ch.name if isinstance(ch, (ast.FunctionDef, ast.ClassDef)) else name
            owner[id(ch)] = nm
            walk(ch, nm)
    walk(tree, '<module>')
    for node in ast.walk(tree):
        if not hasattr(node, 'lineno') or id(node) in docs: continue
        if funcs and owner.get(id(node)) not in funcs: continue
        if owner.get(id(node)) in skip: continue
        text_line = lines[node.lineno - 1]
        if 'print' in text_line or 'fprintf' in text_line or 'verbosity' in text_line or 'DEBUG' in text_line or 'blah' in text_line or 'assert' in text_line or 'Error(' in text_line: continue
        for v in variants(node):
            if v is None: continue
            target = node
            if isinstance(v, tuple):
                target, v = node.test, v[1]
            ast.fix_missing_locations(v)
            a = offs[target.lineno - 1] + target.col_offset
            b = offs[target.end_lineno - 1] + target.end_col_offset
            new = ast.unparse(v)
            if isinstance(v, ast.expr) and not isinstance(v, (ast.Constant, ast.Name, ast.Call, ast.Attribute, ast.Subscript)):
                new = '(' + new + ')'
            out = raw[:a] + new.encode('utf-8') + raw[b:]
            try:
                if ast.dump(ast.parse(out)) == ast.dump(tree): continue
            except SyntaxError:
                continue
            yield dict(file=path, line=target.lineno, func=owner.get(id(node)),
                       old=raw[a:b].decode('utf-8')[:200], new=new[:200]), out


def sh(cmd, cwd, env, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return -9, 'timeout'


def main():
    out, jobs, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    k = sys.argv.index('--')
    files, checks = sys.argv[5:k], sys.argv[k + 1:]
    skip = set(os.environ.get('SKIP', '').split(','))
    allm = []
    for f in files:
        f, _, fn = f.partition(':')
        src = open('/repo/' + f, encoding='utf-8', newline='').read()
        allm += [m for m in mutants(f, src, set(fn.split(',')) if fn else None, skip)]
    print(len(allm), 'mutants', flush=True)
    random.Random(seed).shuffle(allm)
    allm = allm[:n]
    q = queue.Queue()
    for m in allm: q.put(m)
    lock = threading.Lock()
    fo = open(out, 'a')

    def work(w):
        top = tempfile.mkdtemp(prefix='mut.')
        repo = top + '/repo'
        shutil.copytree('/repo', repo, symlinks=True)
        verif = top + '/verif'
        shutil.copytree(HERE, verif, symlinks=True, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent', PYTHONHASHSEED='0',
                   MPLBACKEND='Agg', MPLCONFIGDIR=top + '/mpl', TZ='UTC', LANG='C.UTF-8', LC_ALL='C.UTF-8',
                   PYTHONPATH=repo)
        cenv = dict(os.environ, VERIF_REPO=repo, VERIF_WORKERS='1', VERIF_SCALE=SCALE, VERIF_EVIDENCE=top + '/ev')
        py = ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--rootdir=' + repo, '--timeout=60']
        try:
            while True:
                try: m, src = q.get_nowait()
                except queue.Empty: return
                p = repo + '/' + m['file']
                orig = open(p, 'rb').read()
                open(p, 'wb').write(src)
                try:
                    killed = False
                    for cwd, args in ((repo + '/tests', ['--ignore=xlrd', '.']), (repo, ['tests/xlrd']),
                                      (repo, ['--doctest-glob=*.rst', 'README.rst', 'docs/overview_examples.rst', 'docs/index.rst'])):
                        rc, o = sh(py + args, cwd, env, 200)
                        if rc not in (0, 5):
                            killed = True; break
                    if killed:
                        m['result'] = 'tests'
                    else:
                        m['result'] = 'SURVIVED'
                        for c in checks:
                            rc, o = sh([verif + '/check', c], verif, cenv, 900)
                            if rc == 1 and 'VIOLATION' in o:
                                m['result'] = c; m['msg'] = [l for l in o.splitlines() if l.startswith('generator')][0][:200]
                                break
                            elif rc != 0:
                                m.setdefault('odd', []).append((c, rc, o[-300:]))
                finally:
                    open(p, 'wb').write(orig)
                with lock:
                    fo.write(json.dumps(m) + '\n'); fo.flush()
        finally:
            shutil.rmtree(top)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(work, range(jobs)))


main()
