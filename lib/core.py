"""Common machinery: build of the modules under test, running drivers and TLC, verdicts, evidence."""
import json, os, re, shutil, subprocess, sys, time, fcntl, threading, hashlib, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
SPEC = os.path.join(VERIF, 'spec')
HARN = os.path.join(VERIF, 'harness')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))


class Broken(Exception):
    """The machinery (not the code under test) failed."""


def die(msg):
    print('CHECK-ERROR: ' + msg)
    sys.stdout.flush()
    os._exit(2)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == 'quick'
        os.makedirs(BUILD, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix='work-%s-' % pid, dir=BUILD)
        self.fails = []          # {clause, source, detail, replay}
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.parts = []          # what ran
        self.lock = threading.Lock()
        self.built = False
        self.pool = ThreadPoolExecutor(JOBS)

    # ---------------------------------------------------------------- build
    def build(self):
        """Compile REPO/cpp as it is now; every driver imports the result."""
        if self.built:
            return
        with open(os.path.join(BUILD, '.lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            r = subprocess.run(['bash', os.path.join(HARN, 'build_cpp.sh'), REPO, os.path.join(BUILD, 'cpp')],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            dj = os.path.join(BUILD, 'dijitso')
            if not os.path.isdir(dj) and os.path.isdir('/opt/dt-build/dijitso'):
                shutil.copytree('/opt/dt-build/dijitso', dj + '.tmp', symlinks=True)
                os.rename(dj + '.tmp', dj)
        if r.returncode:
            raise Broken('the C++ modules do not build (see %s/cpp/make.log)\n%s' % (BUILD, r.stdout.decode()[-800:]))
        self.built = True

    def env(self):
        e = dict(os.environ)
        e.update(PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', LC_ALL='C.UTF-8', HOME=BUILD,
                 PYTHONPATH=':'.join(['/opt/vp/plugin', os.path.join(BUILD, 'cpp', 'lib'), REPO]),
                 PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore', MPLBACKEND='Agg',
                 OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                 DIJITSO_CACHE_DIR=os.path.join(BUILD, 'dijitso'), MPLCONFIGDIR=os.path.join(BUILD, 'mpl'),
                 OMPI_MCA_ess_singleton_isolated='1', VERIF_REPO=REPO)
        e.pop('DISPLAY', None)
        return e

    # -------------------------------------------------------------- drivers
    def driver(self, name, args, timeout=600, env=None):
        """Run harness/<name>.py in a directory of its own.  Returns (rc, stderr tail); rc != 0
        means the code under test (or the driver) died."""
        d = tempfile.mkdtemp(prefix='run-', dir=self.work)
        mark = d + '.done'
        try:
            r = subprocess.run(['/opt/venv/bin/python', os.path.join(HARN, name + '.py')] + [str(a) for a in args],
                               cwd=d, env=dict(self.env(), VERIF_DONE=mark, **(env or {})), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout)
            rc = r.returncode
            if rc == 0 and not os.path.exists(mark):
                rc = 99                 # the code under test ended the process
            return rc, 'rc=%d ' % rc + (r.stdout + r.stderr).decode(errors='replace')[-1500:]
        except subprocess.TimeoutExpired:
            return 124, 'no result after %d s' % timeout
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def duo(self, name, spec, what, a, b, cfg='Trace.cfg'):
        """Two sessions of a driver in one process, their operations interleaved.  (a, b: arguments, the
        trace first or where 'OUT' stands.)  Each trace must be a behaviour of the specification by itself:
        the joint behaviour is one of two instances that share no variable."""
        outs = [self.path('duo-%s-%s-%d.ndjson' % (name, hashlib.md5(repr((a, b)).encode()).hexdigest()[:8], i)) for i in (0, 1)]
        a, b = [[o if x == 'OUT' else x for x in v] for o, v in zip(outs, (a, b))]
        rc, err = self.driver('duo', [self.seed, name, len(a)] + a + b)
        for i, o in enumerate(outs):
            if os.path.exists(o) or not rc:
                self.validate(spec, o, '%s, session %d of two interleaved ones' % (what, i + 1), cfg=cfg, died=err if rc else None)
            elif rc:
                self.fail('crash', what, 'the driver died: ' + err[:600])

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=1, timeout=800, extra=(), out=None, heap='2g'):
        md = tempfile.mkdtemp(prefix='tlc-', dir=self.work)
        e = dict(os.environ)
        e.update(env or {})
        e['JAVA_TOOL_OPTIONS'] = '-Xmx%s -XX:ParallelGCThreads=2 -Xss64m -Djava.io.tmpdir=%s' % (heap, md)
        cfgp = cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg)
        try:
            r = subprocess.run(['tlc', '-config', cfgp, os.path.join(SPEC, module + '.tla'), '-workers', str(workers),
                                '-metadir', md, '-noGenerateSpecTE'] + list(extra), cwd=SPEC, env=e, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            txt = r.stdout.decode(errors='replace')
            rc = r.returncode
        except subprocess.TimeoutExpired as x:
            txt, rc = (x.stdout or b'').decode(errors='replace'), 124
        finally:
            shutil.rmtree(md, ignore_errors=True)
        m = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct', txt)
        g, s = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
        return rc, txt, s, g

    def cfg(self, base, **consts):
        """A copy of spec/<base> with some constants changed."""
        t = open(os.path.join(SPEC, base)).read()
        for k, v in consts.items():
            t, n = re.subn(r'(?m)^(\s*%s\s*=\s*).*$' % k, lambda m: m.group(1) + str(v), t)
            if n != 1:
                raise Broken('constant %s not in %s' % (k, base))
        p = os.path.join(self.work, 'c%s-%s' % (hashlib.md5(t.encode()).hexdigest()[:8], base))
        with open(p, 'w') as f:
            f.write(t)
        return p

    def model(self, module, cfg, what, workers=4, timeout=800, heap='6g'):
        """Check a design model exhaustively.  The model does not depend on the code, so anything
        but success is an error of the machinery."""
        rc, txt, s, g = self.tlc(module, cfg, workers=workers, timeout=timeout, heap=heap)
        if rc != 0 or 'No error has been found' not in txt:
            raise Broken('model %s: rc=%d\n%s' % (module, rc, txt[-1500:]))
        with self.lock:
            self.states += s
            self.transitions += g
            self.parts.append({'model': module, 'what': what, 'states': s, 'generated': g, 'exhaustive': True})

    def generate(self, module, cfg, outfile, timeout=800, tag='HIST', extra=(), sim=False):
        """Behaviours of a specification, one JSON per line."""
        rc, txt, s, g = self.tlc(module, cfg, workers=1 if sim else 4, timeout=timeout, extra=extra, heap='6g')
        n = 0
        with open(outfile, 'w') as f:
            for l in txt.splitlines():
                if l.startswith('"' + tag + ' '):
                    f.write(json.loads(l)[len(tag) + 1:] + '\n')
                    n += 1
        if n == 0 or (rc != 0):
            raise Broken('generator %s: rc=%d, %d behaviours\n%s' % (module, rc, n, txt[-1500:]))
        with self.lock:
            self.states += s
            self.transitions += g
            self.parts.append({'generator': module, 'behaviours': n, 'states': s})
        return n

    def fail(self, clause, source, detail, replay=None):
        with self.lock:
            self.fails.append({'clause': clause, 'source': source, 'detail': detail, 'replay': replay})

    def validate(self, module, trace, source, env=None, timeout=800, cfg='Trace.cfg', died=None):
        """Check a recorded trace against a trace specification; the failing clauses are recorded."""
        lines = 0
        sample = None
        if os.path.exists(trace):
            with open(trace, 'rb') as f:
                data = f.read()
            if data and not data.endswith(b'\n'):       # the process died while writing
                data = data[:data.rfind(b'\n') + 1]
                open(trace, 'wb').write(data)
            lines = data.count(b'\n')
        if died:
            self.fail('crash', source, 'the driver died: ' + died[:600], trace)
        if lines == 0:
            if not died:
                raise Broken('%s: empty trace' % source)
            return
        e = {'TRACE': trace}
        e.update(env or {})
        rc, txt, s, g = self.tlc(module, cfg, env=e, timeout=timeout, heap='3g')
        v = [json.loads(l)[8:] for l in txt.splitlines() if l.startswith('"VERDICT ')]
        if rc == 0 and len(v) == 1:
            bad = json.loads(v[0])
            for b in bad:
                ent = nth_line(trace, b['line'])
                self.fail(b['clause'], source, {'line': b['line'], 'event': ent}, trace)
        elif rc == 124:
            raise Broken('%s: TLC timed out on the trace' % source)
        elif 'Error evaluating' in txt or 'TLC threw an unexpected exception' in txt or 'Error: Evaluating' in txt or 'was evaluated' in txt or 'Error: ' in txt:
            if 'Parsing or semantic analysis failed' in txt or 'Semantic errors' in txt or 'OutOfMemory' in txt:
                raise Broken('%s: %s' % (source, txt[-1500:]))
            # the trace holds a value the specification gives no meaning to
            self.fail('undefined', source, txt[-1500:], trace)
        else:
            raise Broken('%s: TLC rc=%d\n%s' % (source, rc, txt[-1500:]))
        with self.lock:
            self.traces += 1
            self.events += lines
            self.states += s
            self.transitions += g
            self.parts.append({'trace': source, 'spec': module, 'events': lines})
            if len(self.samples) < 3:
                self.samples.append({'trace': source, 'event': nth_line(trace, min(lines, 3))[:1200]})

    def par(self, thunks):
        fs = [self.pool.submit(t) for t in thunks]
        for f in fs:
            f.result()

    def path(self, name):
        return os.path.join(self.work, name)


def nth_line(path, n):
    with open(path, errors='replace') as f:
        for k, l in enumerate(f, 1):
            if k == n:
                return l.rstrip('\n')[:4000]
    return ''
