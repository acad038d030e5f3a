"""mutate.py N SEED OUT [-j JOBS] [FILE...]: sample mutants and run the monitors on each.

For each sampled mutant of the original source the quick workload of the
properties that own the file runs in one process, with a fail-fast stop; the
survivors are written to OUT for inspection.  Scratch copies under /tmp/mut.
"""
import ast, json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = '/repo/structuralcodes'
OWN = [
    ('codes/ec2_2004/_concrete_material', 'C21 C22'), ('codes/ec2_2004/_reinforcement', 'C21'),
    ('codes/ec2_2004/_concrete_creep', 'C22'), ('codes/ec2_2004/shear', 'C23'),
    ('codes/ec2_2004/_section_7', 'C24'), ('codes/ec2_2004/_cracking', 'C24'),
    ('codes/ec2_2023/_section5', 'C21 C22'), ('codes/ec2_2023/_annexB', 'C21 C22'),
    ('codes/ec2_2023/_section9', 'C24'),
    ('codes/mc2010/_concrete_material', 'C21'), ('codes/mc2010/_reinf', 'C21'),
    ('codes/mc2010/_concrete_creep', 'C22'), ('codes/mc2010/', 'C23'), ('codes/__init__', 'C20'),
    ('materials/constitutive_laws/__init__', 'C19'),
    ('materials/constitutive_laws/_parallel', 'C07'), ('materials/constitutive_laws/_initial', 'C07'),
    ('materials/constitutive_laws', 'C05 C06 C07'), ('materials/', 'C19 C20 C07'),
    ('core/base', 'C05 C06 C07 C19'), ('core/_marin', 'C01'), ('core/_section_results', 'C11 C12 C10 C14 C15 C09'),
    ('geometry/profiles', 'C18'), ('geometry/_reinforcement', 'C17'),
    ('geometry/', 'C16 C17 C02 C04 C09 C15'), ('sections/_rc', 'C15'),
    ('sections/section_integrators', 'C02 C03 C04 C08 C09'),
    ('sections/', 'C14 C15 C13 C10 C11 C12 C08 C09 C04'),
]
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='],
       ast.Eq: ['!='], ast.NotEq: ['==']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.Pow: ['*']}


def points(src):
    """(start, end, replacement, kind) in characters."""
    tree = ast.parse(src)
    off = [0]
    for l in src.splitlines(True):
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                skip |= set(map(id, ast.walk(n.body[0])))
        if isinstance(n, ast.FunctionDef):
            for a in n.args.args + n.args.kwonlyargs:
                if a.annotation:
                    skip |= set(map(id, ast.walk(a.annotation)))
            if n.returns:
                skip |= set(map(id, ast.walk(n.returns)))
        if isinstance(n, ast.AnnAssign):
            skip |= set(map(id, ast.walk(n.annotation)))
        if isinstance(n, ast.Raise) or isinstance(n, (ast.Import, ast.ImportFrom)):
            skip |= set(map(id, ast.walk(n)))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'warn':
            skip |= set(map(id, ast.walk(n)))
    out = []

    def between(l, r):
        return pos(l)[1], pos(r)[0]

    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            s, e = between(n.left, n.comparators[0])
            for q in CMP[type(n.ops[0])]:
                out.append((s, e, op_sub(b[s:e], q), 'cmp'))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            s, e = between(n.left, n.right)
            for q in BIN[type(n.op)]:
                out.append((s, e, op_sub(b[s:e], q), 'bin'))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            s, e = pos(n)
            v = n.value
            if isinstance(v, int):
                out.append((s, e, str(v + 1), 'const'))
                if v:
                    out.append((s, e, str(v - 1), 'const'))
            else:
                out.append((s, e, repr(v * 1.02 if v else 0.01), 'const'))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            s, e = pos(n)
            out.append((s, e, str(not n.value), 'bool'))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            s, e = pos(n)
            s2, e2 = pos(n.operand)
            out.append((s, e, b[s2:e2].decode(), 'unary'))
        elif isinstance(n, ast.BoolOp):
            s, e = between(n.values[0], n.values[1])
            t = b[s:e].decode()
            out.append((s, e, t.replace('and', 'or') if isinstance(n.op, ast.And) else t.replace('or', 'and'), 'boolop'))
        elif isinstance(n, ast.If):
            s, e = pos(n.test)
            out += [(s, e, 'True', 'if'), (s, e, 'False', 'if')]
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            s, e = pos(n)
            out.append((s, e, 'pass', 'drop'))
            if isinstance(n, ast.AugAssign):
                out.append((s, e, b[s:e].decode().replace('+=', '-=') if '+=' in b[s:e].decode() else b[s:e].decode().replace('=', '=0*', 1), 'aug'))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('min', 'max', 'abs'):
            s, e = pos(n.func)
            out.append((s, e, {'min': 'max', 'max': 'min', 'abs': ''}[n.func.id], 'call'))
        elif isinstance(n, ast.Return) and n.value is not None:
            s, e = pos(n.value)
            out.append((s, e, 'None', 'return'))
    return out, b


def op_sub(seg, q):
    t = seg.decode()
    for o in ('<=', '>=', '==', '!=', '**', '<', '>', '+', '-', '*', '/'):
        if o in t:
            return t.replace(o, q, 1)
    return t


def run(job):
    k, path, (s, e, q, kind), src = job
    d = f'/tmp/mut/m{os.getpid()}_{k}'
    shutil.copytree(PKG, d + '/structuralcodes', ignore=shutil.ignore_patterns('__pycache__'))
    new = src[:s] + q.encode() + src[e:]
    line = src[:s].count(b'\n') + 1
    desc = f'{path}:{line} [{kind}] {src[max(s-25,0):s].decode(errors="replace")!r} «{src[s:e].decode()}» -> «{q}» {src[e:e+25].decode(errors="replace")!r}'
    try:
        ast.parse(new)
    except SyntaxError:
        shutil.rmtree(d)
        return desc, 'syntax', 0
    open(f'{d}/structuralcodes/{path}', 'wb').write(new)
    props = next(p for pre, p in OWN if path.startswith(pre)).split()
    env = dict(os.environ, RTM_REPO=d, RTM_CHILD='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
               OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONPATH=f'{d}:{HERE}')
    t = time.time()
    try:
        r = subprocess.run(['/opt/venv/bin/python', HERE + '/tools/mutant_run.py', *props], env=env,
                           capture_output=True, text=True, timeout=900)
        res = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else 'import ' + r.stderr.strip()[-100:]
    except subprocess.TimeoutExpired:
        res = 'TIMEOUT'
    shutil.rmtree(d)
    return desc, res, time.time() - t


def main():
    a = sys.argv[1:]
    jobs = 8
    if '-j' in a:
        i = a.index('-j')
        jobs = int(a[i + 1])
        del a[i:i + 2]
    n, seed, out, files = int(a[0]), int(a[1]), a[2], a[3:]
    if not files:
        files = []
        for root, _, fs in os.walk(PKG):
            for f in fs:
                p = os.path.relpath(os.path.join(root, f), PKG)
                if f.endswith('.py') and any(p.startswith(pre) for pre, _ in OWN) and '__pycache__' not in p:
                    files.append(p)
    rnd = random.Random(seed)
    pool = []
    for f in sorted(files):
        src = open(f'{PKG}/{f}').read()
        pts, b = points(src)
        if f.startswith('geometry/profiles') and len(pts) > 120:
            pts = rnd.sample(pts, 40)
        pool += [(f, p, b) for p in pts]
    print(len(pool), 'mutation points')
    pick = rnd.sample(pool, min(n, len(pool)))
    js = [(k, f, p, b) for k, (f, p, b) in enumerate(pick)]
    tally = {}
    with ThreadPoolExecutor(jobs) as ex, open(out, 'w') as fh:
        for desc, res, t in ex.map(run, js):
            w = res.split()[0]
            tally[w] = tally.get(w, 0) + 1
            if w in ('SURVIVED', 'TIMEOUT'):
                fh.write(f'{w} {t:.0f}s {desc}\n')
                fh.flush()
    print(tally)


if __name__ == '__main__':
    main()
