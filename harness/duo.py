"""Two sessions of one driver in one process, interleaved at the events they log.

  duo.py SEED DRIVER N ARGS1(N of them) ARGS2...

Each session has its own objects (meshes, fields, solvers, particles, recordings), trace and working directory.
Exactly one runs at a time; after an event the turn may pass to the other.  What is legitimately one per process
(random numbers, numbering of particles, segment length of new storage) is kept apart here, so each session should
behave as it does alone."""
import sys, os, random, threading, traceback
import vlib
import dt_pybind11_bridge          # noqa: F401
import numpy as np
import Particle_Module as PM

HERE = os.path.dirname(os.path.abspath(__file__))


class End(BaseException):
    pass


class Session:
    def __init__(self, k, drv, argv):
        self.k, self.drv, self.argv = k, drv, argv
        self.go = threading.Semaphore(0)
        self.over, self.err = False, None
        self.dir = os.path.abspath('s%d' % k)
        os.mkdir(self.dir)
        self.save()

    def save(self):
        self.kept = (np.random.get_state(), np.random.normal, PM.Particle_C.SEGMENT_LENGTH, PM.Particle_C.UNIQUE_ID_COUNTER, sys.argv)

    def restore(self):
        np.random.set_state(self.kept[0])
        np.random.normal, PM.Particle_C.SEGMENT_LENGTH, PM.Particle_C.UNIQUE_ID_COUNTER, sys.argv = self.kept[1:]
        os.chdir(self.dir)

    def body(self):
        self.go.acquire()
        self.restore()
        sys.argv = [self.drv] + self.argv
        try:
            src = open(os.path.join(HERE, self.drv + '.py')).read()
            exec(compile(src, self.drv + '.py', 'exec'), {'__name__': '__main__', '__file__': self.drv})
        except End:
            pass
        except BaseException:
            self.err = traceback.format_exc()
        global cur
        self.over = True
        o = other(self)
        cur = o.k
        if o.over:
            last.release()
        else:
            o.go.release()


def other(s):
    return ss[1 - s.k]


def turn():
    global cur
    s = ss[cur]
    order.append(s.k)
    o = other(s)
    if o.over or R.random() > rate[0]:
        if R.random() < 0.01:
            rate[0] = R.choice([0.05, 0.3, 0.8])
        return
    s.save()
    cur = o.k
    o.go.release()
    s.go.acquire()
    cur = s.k
    s.restore()


order = []
R = random.Random('duo %s' % sys.argv[1])
rate = [0.5]
n = int(sys.argv[3])
threading.stack_size(1 << 28)
last = threading.Semaphore(0)
ss = [Session(0, sys.argv[2], sys.argv[4:4 + n]), Session(1, sys.argv[2], sys.argv[4 + n:])]
vlib.HOOK, vlib.END = turn, End
cur = 0
for s in ss:
    threading.Thread(target=s.body, daemon=True).start()
ss[0].go.release()
last.acquire()
vlib.END = None
for s in ss:
    if s.err:
        sys.stderr.write(s.err)
        sys.stderr.flush()
        os._exit(1)
if 'VERIF_ORDER' in os.environ:
    with open(os.environ['VERIF_ORDER'], 'w') as f:
        f.write(' '.join(map(str, order)))
vlib.done()
