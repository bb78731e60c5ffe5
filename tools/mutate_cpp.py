#!/usr/bin/env python3
"""mutate_cpp.py WORKDIR FILE[,FILE..] [--max N] [--jobs J] [--seed S]

The same as mutate.py for the C++ sources: small textual changes of the lines of /repo/cpp/FILE that
the drivers execute (found with gcov), one at a time; the modules are rebuilt and the drivers that
execute the line are run and their traces validated, until one notices.  Not part of any check."""
import glob, gzip, hashlib, importlib.util, json, os, random, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sp = importlib.util.spec_from_file_location('mutate', os.path.join(HERE, 'mutate.py'))
mu = importlib.util.module_from_spec(sp)
sp.loader.exec_module(mu)


def coverage(W, cfs, J):
    """{config: {file: [lines]}} from a build with --coverage"""
    B = os.path.join(W, 'covb')
    os.makedirs(os.path.join(B, 'bin'), exist_ok=True)
    with open(os.path.join(B, 'bin', 'g++'), 'w') as f:
        f.write('#!/bin/bash\nexec /usr/bin/g++ "$@" --coverage -O0\n')
    os.chmod(os.path.join(B, 'bin', 'g++'), 0o755)
    os.makedirs(os.path.join(B, 'src'), exist_ok=True)
    os.makedirs(os.path.join(B, 'lib'), exist_ok=True)
    subprocess.run("rsync -rc --include='*.cpp' --include='*.h' --exclude='*' /repo/cpp/ %s/src/" % B, shell=True, check=True)
    e = dict(os.environ, PATH=os.path.join(B, 'bin') + ':' + os.environ['PATH'])
    subprocess.run(['make', '-k', '-j8', '-f', '/opt/vp/solibs.mk', 'all'], cwd=B, env=e, check=True, stdout=open(B + '/log', 'w'), stderr=subprocess.STDOUT)
    suf = subprocess.check_output(['/usr/bin/python3-config', '--extension-suffix'], text=True).strip()
    for so in glob.glob(B + '/*.so'):
        shutil.copy(so, os.path.join(B, 'lib', os.path.basename(so)[:-3] + suf))

    def one(cf):
        w = os.path.join(W, 'c-' + cf[0])
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w + '/g')
        r = subprocess.run([mu.PY, os.path.join(V, 'harness', cf[1] + '.py')] + ([cf[2][0], w + '/t'] + cf[2][1:] if cf[1] == 'drv_sap' else [w + '/t'] + cf[2]),
                           cwd=w, env=dict(mu.env('/repo', B + '/lib'), GCOV_PREFIX=w + '/g', VERIF_DONE=w + '/mark', VERIF_COVERAGE='1'), stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1500)
        assert r.returncode == 0 and os.path.exists(w + '/mark'), (cf[0], r.stdout[-600:])
        out = {}
        for da in glob.glob(w + '/g/**/*.gcda', recursive=True):
            o = os.path.basename(da)[:-5]
            shutil.copy(os.path.join(B, o + '.gcno'), os.path.dirname(da))
            subprocess.run(['gcov', '--json-format', '-o', os.path.dirname(da), o + '.o'], cwd=w, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for jf in glob.glob(w + '/*.gcov.json.gz'):
            for f in json.load(gzip.open(jf))['files']:
                b = os.path.basename(f['file'])
                if os.path.exists('/repo/cpp/' + b):
                    s = out.setdefault(b, set())
                    s.update(l['line_number'] for l in f['lines'] if l['count'] > 0)
        shutil.rmtree(w)
        return cf[0], {k: sorted(v) for k, v in out.items()}
    with ThreadPoolExecutor(J) as p:
        return dict(p.map(one, cfs))


PAIR = [(r'==', '!='), (r'!=', '=='), (r'<=', '<'), (r'>=', '>'), (r'(?<![<>\-\w])(?<!<)<(?![<=\w:])', '<='), (r'(?<![->])>(?![>=])', '>='), (r'&&', '||'), (r'\|\|', '&&'),
        (r'\+=', '-='), (r'-=', '+='), (r'(?<=[\w\)\]]) ?\+ ?(?=[\w\(])', ' - '), (r'(?<=[\w\)\]]) ?- ?(?=[\w\(])', ' + '), (r'(?<=[\w\)\]]) ?\* ?(?=[\w\(])', ' / '),
        (r'(?<=[\w\)\]]) ?/ ?(?=[\w\(])', ' * '), (r'\+\+', '--'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'(?<![\w.])0(?![\w.])', '1'),
        (r'(?<![\w.])1(?![\w.])', '2'), (r'(?<![\w.])2(?![\w.])', '1'), (r'(?<![\w.])2\.0(?![\w])', '1.0'), (r'(?<![\w.])0\.5(?![\w])', '1.0'), (r'(?<=[=(,] )-(?=\w)', ''), (r'%', '*'), (r'&(?= ?\()', '|')]


def mutants(src, lines):
    out = []
    for i, l in enumerate(src.split('\n'), 1):
        code = l.split('//')[0]
        if i not in lines or re.match(r'\s*(std::c|//|/\*|\*|#|template|using|namespace|throw)', l) or 'std::cout' in l:
            continue
        for pat, new in PAIR:
            for m in re.finditer(pat, code):
                out.append((i, '%s -> %s' % (m.group(0), new), code[:m.start()] + new + code[m.end():] + l[len(code):]))
        m = re.match(r'(\s*)(if|while) ?\((.*)\)(.*)$', code.rstrip())
        if m:
            out.append((i, 'negated', '%s%s (!(%s))%s' % m.groups()))
        if re.match(r'\s*[\w\->.\[\]():*]+( [-+*/]?= .*|\(.*\)|\+\+|\+= .*|-= .*);\s*$', code) and not re.match(r'\s*(return|auto|int|double|size_t|bool|py::|break|const|dolfin::|std::)\b', code):
            out.append((i, 'deleted', re.match(r'\s*', code).group(0) + ';'))
        if re.match(r'\s*(break|continue);', code):
            out.append((i, 'deleted', ';'))
    return out


def main():
    W, files = sys.argv[1], sys.argv[2].split(',')
    opt = lambda n, d: sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
    J, CAP = int(opt('--jobs', '8')), 14
    os.makedirs(W, exist_ok=True)
    cfs = [c for c in mu.configs() if 'cpp' in c[0] or c[0].startswith(('sap-cartesian', 'mesh', 'setup', 'user'))]
    cfs += [('sap-%s-%s' % (k, L), 'drv_sap', ['random', k, L, '1', '6', '40'], 'SAPTrace', 'Trace.cfg') for k in ('cartesian_x', 'spherical_r', 'cartesian_xyz') for L in ('1', '2', '5')]
    covf = os.path.join(W, 'cov.json')
    if not os.path.exists(covf):
        c = coverage(W, cfs, J)
        json.dump(c, open(covf, 'w'))
    cov = json.load(open(covf))
    todo = []
    for f in files:
        src = open('/repo/cpp/' + f).read()
        by = {}
        for n, c in cov.items():
            for ln in c.get(f, []):
                by.setdefault(ln, set()).add(n)
        for ln, w, s in mutants(src, set(by)):
            todo.append((f, ln, w, s, by[ln], src))
    random.Random(int(opt('--seed', '1'))).shuffle(todo)
    n0 = len(todo)
    todo = todo[:int(opt('--max', '100000'))]
    print('%d mutants, %d taken' % (n0, len(todo)), flush=True)
    slots, lock = list(range(J)), threading.Lock()
    suf = subprocess.check_output(['/usr/bin/python3-config', '--extension-suffix'], text=True).strip()
    for k in slots:
        d = os.path.join(W, 'b%d' % k)
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(['bash', os.path.join(V, 'harness', 'build_cpp.sh'), '/repo', d], check=True)
    surv, kills = open(os.path.join(W, 'survivors.txt'), 'a'), open(os.path.join(W, 'killed.txt'), 'a')
    cnt, t0 = [0, 0, 0], time.time()
    prio = {'run': 1, 'create': 1, 'mesh': 0, 'user': 2, 'solve': 1, 'field': 1, 'sap': 0, 'sweep': 2, 'uniform': 0, 'setup': 0, 'limit': 2, 'script': 3, 'pic': 3}

    def mut(m):
        f, ln, what, s, names, src = m
        with lock:
            k = slots.pop()
        b, work = os.path.join(W, 'b%d' % k), os.path.join(W, 'w%d' % k)
        os.makedirs(work, exist_ok=True)
        p = os.path.join(b, 'src', f)
        res = None
        l = [c for c in cfs if c[0] in names]
        random.Random(hashlib.md5(s.encode()).hexdigest()).shuffle(l)
        l.sort(key=lambda c: prio[c[0].split('-')[0]])
        first = {}
        for c in l:
            first.setdefault('-'.join(c[0].split('-')[:3 if c[0].startswith(('run', 'sweep')) else 1]), c)
        first = list(first.values())
        l = (first + [c for c in l if c not in first])[:max(CAP, len(first))]
        try:
            t = src.split('\n')
            t[ln - 1] = s
            open(p, 'w').write('\n'.join(t))
            r = subprocess.run(['make', '-k', '-j2', '-f', '/opt/vp/solibs.mk', 'all'], cwd=b, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                res = ('build', 'error')
            else:
                for so in glob.glob(b + '/*.so'):
                    t = os.path.join(b, 'lib', os.path.basename(so)[:-3] + suf)
                    if os.path.exists(t):
                        os.unlink(t)
                    shutil.copy(so, t)
                for c in l:
                    r = mu.drive(c, '/repo', os.path.join(b, 'lib'), work)
                    if r:
                        res = (c[0], r)
                        break
        finally:
            open(p, 'w').write(src)
            with lock:
                slots.append(k)
        old = src.split('\n')[ln - 1].strip()[:150]
        with lock:
            if res and res[0] == 'build':
                cnt[2] += 1
            elif res:
                cnt[0] += 1
                kills.write('%s:%d %s | %s | %s %s\n' % (f, ln, what, s.strip()[:150], res[0], res[1]))
                kills.flush()
            else:
                cnt[1] += 1
                surv.write('%s:%d %s\n    - %s\n    + %s\n' % (f, ln, what, old, s.strip()[:150]))
                surv.flush()
            if sum(cnt) % 20 == 0:
                print('%d killed %d survived %d do not build %.0fs' % (cnt[0], cnt[1], cnt[2], time.time() - t0), flush=True)
    with ThreadPoolExecutor(J) as p:
        list(p.map(mut, todo))
    print('done: %d killed %d survived %d do not build %.0fs' % (cnt[0], cnt[1], cnt[2], time.time() - t0))


main()
