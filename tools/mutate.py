#!/usr/bin/env python3
"""mutate.py WORKDIR FILE[,FILE..] [--max N] [--jobs J] [--seed S] [--ops a,b]

Mutation testing of the checks: every small change (operator, constant, negated condition, deleted
statement) of the lines of /repo/FILE that the drivers execute is made in a copy, and the drivers
that execute the line are run on it, each trace validated against its specification, until one
notices.  What survives all of them is listed in WORKDIR/survivors.txt.  Not part of any check."""
import ast, hashlib, json, os, random, shutil, subprocess, sys, threading, time, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
C4 = ['cartesian_x', 'cartesian_xy', 'spherical_r', 'cartesian_xyz']


def configs():
    out = []
    for co in C4:
        for im in ('py', 'cpp'):
            out.append(('run-%s-%s' % (im, co), 'drv_plasma', [im, co, '1', '45', 'run'], 'PlasmaTrace', 'PlasmaTrace.cfg'))
            out.append(('sweep-%s-%s' % (im, co), 'drv_plasma', [im, co, '1', '2', 'sweep'], 'PlasmaTrace', 'PlasmaTrace.cfg'))
            for m in ('field', 'create'):
                for s in ('1', '101'):
                    out.append(('%s-%s-%s-%s' % (m, im, co, s), 'drv_field', [im, co, s, '120', m], 'FieldTrace', 'MeshTrace.cfg'))
            if co != 'cartesian_xyz':
                out.append(('pic-%s-%s' % (im, co), 'drv_pic', [im, co, '1', '40'], 'PICTrace', 'PICTrace.cfg'))
            out.append(('limit-%s-%s' % (im, co), 'drv_plasma', [im, co, '1', '8', 'limit'], 'PlasmaTrace', 'PlasmaTrace.cfg'))
        for s in ('1', '101'):
            out.append(('mesh-%s-%s' % (co, s), 'drv_mesh', [co, s, '120', '60'], 'MeshTrace', 'MeshTrace.cfg'))
            for m in ('solve', 'user'):
                if (m, co) != ('solve', 'cartesian_xyz'):
                    out.append(('%s-%s-%s' % (m, co, s), 'drv_solve', [co, s, '100', m], 'SolveTrace', 'MeshTrace.cfg'))
    for im in ('py', 'cpp'):
        out.append(('uniform-' + im, 'drv_plasma', [im, 'cartesian_xyz', '1', '12', 'uniform'], 'PlasmaTrace', 'PlasmaTrace.cfg'))
    for k in ('py', 'cartesian_xy'):
        for L in ('1', '3', '7'):
            out.append(('sap-%s-%s' % (k, L), 'drv_sap', ['random', k, L, '1', '6', '40'], 'SAPTrace', 'Trace.cfg'))
    if os.path.exists(os.path.join(V, 'harness', 'drv_setup.py')):
        for co in C4:
            out.append(('setup-' + co, 'drv_setup', [co, '1', '60'], 'SetupTrace', 'MeshTrace.cfg'))
    return out


def env(repo, lib):
    e = dict(os.environ)
    e.update(PYTHONPATH=':'.join(['/opt/vp/plugin', lib, repo]), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore',
             MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', DIJITSO_CACHE_DIR=os.path.join(V, '.build', 'dijitso'),
             OMPI_MCA_ess_singleton_isolated='1', VERIF_REPO=repo)
    return e


def drive(cf, repo, lib, work, cov=None, timeout=150):
    """None if nothing is noticed, else what is."""
    name, drv, args, mod, cfg = cf
    d = os.path.join(work, 'd')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tr, mark = os.path.join(work, 't.ndjson'), os.path.join(work, 'mark')
    for f in (tr, mark):
        if os.path.exists(f):
            os.unlink(f)
    if drv == 'drv_sap':
        args = [args[0], tr] + args[1:]
    else:
        args = [tr] + args
    cmd = [PY] + ([os.path.join(V, 'tools', 'covrun.py'), repo, cov] if cov else []) + [os.path.join(V, 'harness', drv + '.py')] + args
    try:
        r = subprocess.run(cmd, cwd=d, env=dict(env(repo, lib), VERIF_DONE=mark), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'timeout'
    if r.returncode or not os.path.exists(mark):
        return 'died'
    if cov:
        return None
    if b'"ev": "crash"' in open(tr, 'rb').read() or b'"ev":"crash"' in open(tr, 'rb').read():
        return 'crash'
    md = os.path.join(work, 'md')
    shutil.rmtree(md, ignore_errors=True)
    e = dict(os.environ, TRACE=tr, JAVA_TOOL_OPTIONS='-Xmx2g -XX:ParallelGCThreads=1 -Xss64m')
    try:
        r = subprocess.run(['tlc', '-config', os.path.join(V, 'spec', cfg), os.path.join(V, 'spec', mod + '.tla'), '-workers', '1', '-metadir', md,
                            '-noGenerateSpecTE'], cwd=os.path.join(V, 'spec'), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
    except subprocess.TimeoutExpired:
        return 'tlc-timeout'
    t = r.stdout.decode(errors='replace')
    v = [json.loads(l)[8:] for l in t.splitlines() if l.startswith('"VERDICT ')]
    if 'initialization of VM' in t:
        raise SystemExit(t)
    if r.returncode or len(v) != 1:
        return 'undefined'
    b = sorted({x['clause'] for x in json.loads(v[0])})
    return ','.join(b) if b else None


CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Mod: '*', ast.BitAnd: '|', ast.BitOr: '&', ast.FloorDiv: '*', ast.Pow: '*'}


def mutants(src, lines):
    """(line, description, new source)"""
    t = ast.parse(src)
    ls = src.split('\n')
    starts = [0]
    for l in src.encode().split(b'\n'):
        starts.append(starts[-1] + len(l) + 1)
    b = src.encode()
    pos = lambda ln, co: starts[ln - 1] + co
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    txt = lambda n: b[span(n)[0]:span(n)[1]].decode()
    out = []

    def put(n, new, what):
        s, e = span(n)
        out.append((n.lineno, what, (b[:s] + new.encode() + b[e:]).decode()))

    def skip(st):
        s = txt(st)
        return isinstance(st, (ast.Raise, ast.Import, ast.ImportFrom)) or re.match(r'(print|fncName|errorMsg|warningMsg|infoMsg|sys\.exit|__all__|print\w+ *=|mplot|df_m\.plot)', s) is not None

    def expr(n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            k = CMP.get(type(n.ops[0]))
            if k:
                put(n, '%s %s %s' % (txt(n.left), k, txt(n.comparators[0])), 'cmp -> ' + k)
        elif isinstance(n, ast.BinOp):
            k = BIN.get(type(n.op))
            if k and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                l, r = txt(n.left), txt(n.right)
                put(n, '(%s) %s (%s)' % (l, k, r), 'bin -> ' + k)
        elif isinstance(n, ast.BoolOp):
            put(n, (' or ' if isinstance(n.op, ast.And) else ' and ').join('(%s)' % txt(v) for v in n.values), 'and/or')
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                put(n, str(not n.value), 'bool')
            elif isinstance(n.value, int):
                put(n, str(n.value + 1), 'int+1')
            elif isinstance(n.value, float):
                put(n, repr(n.value * 2 if n.value else 1.0), 'float')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            put(n, '(%s)' % txt(n.operand), 'unary dropped')
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args) and txt(n.args[0]) != txt(n.args[1]):
            s0, e0 = span(n.args[0]); s1, e1 = span(n.args[1]); s, e = span(n)
            out.append((n.lineno, 'args swapped', (b[:s0] + b[s1:e1] + b[e0:s1] + b[s0:e0] + b[e1:]).decode()))
        for c in ast.iter_child_nodes(n):
            expr(c)

    def block(st):
        if skip(st):
            return
        ok = st.lineno in lines
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            for s in st.body:
                block(s)
            if isinstance(st, ast.FunctionDef):
                for d in st.args.defaults:
                    if st.lineno in lines and isinstance(d, ast.Constant) and d.value in (True, False):
                        expr(d)
            return
        if isinstance(st, (ast.If, ast.While)):
            if re.match(r'print', txt(st.test)):
                return
            if ok:
                put(st.test, 'not (%s)' % txt(st.test), 'negated')
                expr(st.test)
            for s in st.body + st.orelse:
                block(s)
            return
        if isinstance(st, ast.For):
            if ok:
                expr(st.iter)
            for s in st.body + st.orelse:
                block(s)
            return
        if isinstance(st, (ast.With, ast.Try)):
            for s in st.body:
                block(s)
            return
        if not ok:
            return
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
            return
        if isinstance(st, ast.AugAssign):
            k = BIN.get(type(st.op))
            if k:
                put(st, '%s %s= %s' % (txt(st.target), k, txt(st.value)), 'aug -> ' + k)
        if not isinstance(st, (ast.Return, ast.Pass, ast.Global)):
            put(st, 'pass', 'deleted')
        elif isinstance(st, ast.Return) and st.value is None:
            put(st, 'pass', 'return dropped')
        for c in ast.iter_child_nodes(st):
            if isinstance(c, ast.expr):
                expr(c)
    for st in t.body:
        block(st)
    good = []
    for ln, w, s in out:
        try:
            ast.parse(s)
            good.append((ln, w, s))
        except SyntaxError:
            pass
    return good


def main():
    W = sys.argv[1]
    CAP = 9
    files = sys.argv[2].split(',')
    opt = lambda n, d: sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
    J = int(opt('--jobs', '8'))
    os.makedirs(W, exist_ok=True)
    lib = os.path.join(V, '.build', 'cpp', 'lib')
    cfs = configs()
    covf = os.path.join(W, 'cov.json')
    if not os.path.exists(covf):
        def one(cf):
            w = os.path.join(W, 'c-' + cf[0])
            os.makedirs(w, exist_ok=True)
            r = drive(cf, '/repo', lib, w, cov=os.path.join(w, 'cov.json'), timeout=600)
            assert r is None, (cf[0], r)
            c = json.load(open(os.path.join(w, 'cov.json')))
            shutil.rmtree(w)
            return cf[0], c
        with ThreadPoolExecutor(J) as p:
            json.dump(dict(p.map(one, cfs)), open(covf, 'w'))
    cov = json.load(open(covf))
    todo = []
    for f in files:
        src = open('/repo/' + f).read()
        by = {}
        for name, c in cov.items():
            for ln in c.get(os.path.basename(f), []):
                by.setdefault(ln, set()).add(name)
        for ln, w, s in mutants(src, set(by)):
            todo.append((f, ln, w, s, by[ln], src))
    random.Random(int(opt('--seed', '1'))).shuffle(todo)
    n0 = len(todo)
    todo = todo[:int(opt('--max', '100000'))]
    print('%d mutants, %d taken' % (n0, len(todo)), flush=True)
    slots = list(range(J))
    lock = threading.Lock()
    for k in slots:
        d = os.path.join(W, 'r%d' % k)
        if not os.path.exists(d):
            subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
        subprocess.run(['git', '-C', d, 'fetch', '-q'], check=True)
        subprocess.run('git -C %s checkout -q . && git -C %s reset -q --hard $(git -C /repo rev-parse HEAD)' % (d, d), shell=True, check=True)
    surv = open(os.path.join(W, 'survivors.txt'), 'a')
    kills = open(os.path.join(W, 'killed.txt'), 'a')
    cnt = [0, 0]
    t0 = time.time()
    prio = {'run': 0, 'create': 1, 'mesh': 1, 'user': 1, 'solve': 1, 'field': 1, 'sap': 0, 'sweep': 3, 'uniform': 2, 'setup': 0, 'limit': 3, 'pic': 2}

    def mut(m):
        f, ln, what, s, names, src = m
        with lock:
            k = slots.pop()
        repo, work = os.path.join(W, 'r%d' % k), os.path.join(W, 'w%d' % k)
        os.makedirs(work, exist_ok=True)
        try:
            open(os.path.join(repo, f), 'w').write(s)
            R = random.Random(hashlib.md5(s.encode()).hexdigest())
            l = [c for c in cfs if c[0] in names]
            R.shuffle(l)
            l.sort(key=lambda c: prio[c[0].split('-')[0]])
            if len(l) > CAP:        # one of each kind, then the first ones
                first = {}
                for c in l:
                    first.setdefault('-'.join(c[0].split('-')[:2 if c[0][0] in 'rsfc' else 1]), c)
                first = list(first.values())
                l = (first + [c for c in l if c not in first])[:max(CAP, len(first))]
            res = None
            for c in l:
                r = drive(c, repo, lib, work)
                if r:
                    res = (c[0], r)
                    break
        finally:
            open(os.path.join(repo, f), 'w').write(src)
            with lock:
                slots.append(k)
        a, b2 = src.split('\n'), s.split('\n')
        j = next((n for n in range(min(len(a), len(b2))) if a[n] != b2[n]), 0)
        with lock:
            if res:
                cnt[0] += 1
                kills.write('%s:%d %s | %s | %s %s\n' % (f, ln, what, b2[j].strip()[:120], res[0], res[1]))
                kills.flush()
            else:
                cnt[1] += 1
                surv.write('%s:%d %s\n    - %s\n    + %s\n' % (f, ln, what, a[j].strip()[:200], b2[j].strip()[:200]))
                surv.flush()
            if sum(cnt) % 50 == 0:
                print('%d killed %d survived %.0fs' % (cnt[0], cnt[1], time.time() - t0), flush=True)
    with ThreadPoolExecutor(J) as p:
        list(p.map(mut, todo))
    print('done: %d killed %d survived %.0fs' % (cnt[0], cnt[1], time.time() - t0))


if __name__ == '__main__':
    main()
