"""Driver for the particle storage (SegmentedArrayPair), Python and C++.

  drv_sap.py replay HISTFILE OUT KIND L     replay TLC-generated histories, compare, write verdict
  drv_sap.py random OUT KIND L SEED NRUNS NOPS   random client, write a trace for SAPTrace.tla

KIND: py, cartesian_x, cartesian_xy, cartesian_xyz, spherical_r (the last four are the C++ classes)
"""
import sys, json, random, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
import numpy as np

DIM = {'py': 2, 'cartesian_x': 1, 'cartesian_xy': 2, 'cartesian_xyz': 3, 'spherical_r': 1}
BAD = 888888888


def item(v, d):
    """The record that stands for the abstract value v: every field depends on v."""
    return tuple([v + 0.25 * (k + 1) for k in range(3 * d)] + [v + 0.5, v % 2, v + 3, v, v % 5])


def val(rec, d):
    """The abstract value of a stored record, BAD if its fields do not belong together."""
    try:
        r = tuple(rec.values()) if isinstance(rec, dict) else tuple(rec)
        v = int(r[3 * d + 3])
        return v if tuple(float(a) for a in r) == tuple(float(a) for a in item(v, d)) else BAD
    except Exception:
        return BAD


class Store:
    def __init__(self, kind, L):
        self.kind, self.L, self.d = kind, L, DIM[kind]
        names = []
        c = ['x', 'y', 'z'][:self.d]
        names = c + [a + '0' for a in c] + ['u' + a for a in c] + ['weight', 'bitflags', 'cell_index', 'unique_ID', 'crossings']
        fm = [np.float64] * (3 * self.d + 1) + [np.int32] * 4
        self.dt = np.dtype({'names': names, 'formats': fm})
        if kind == 'py':
            import SegmentedArrayPair_Module as M
            self.s = M.SegmentedArrayPair_C(L, self.dt)
        else:
            import dt_pybind11_bridge, numpy_types_solib, segmented_array_pair_solib as S
            self.s = getattr(S, 'SegmentedArrayPair_' + kind)(L)
            if kind == 'spherical_r':
                c = ['r']
                names = ['r', 'r0', 'ur'] + names[3:]
                self.dt = np.dtype({'names': names, 'formats': fm})
        self.npush = 0

    def push(self, v):
        t = item(v, self.d)
        self.npush += 1
        how = self.npush % 3
        if how == 0 and self.kind != 'py':
            a = list(t)
        elif how == 1:
            a = np.zeros(1, dtype=self.dt)
            a[0] = t
        else:
            a = t
        r = self.s.push_back(a)
        return [int(r[0]), int(r[1])]

    def get(self, i):
        vs = [val(self.s.get_item(i), self.d)]
        seg, off = self.s.get_segment_and_offset(i)
        vs.append(val(seg[off], self.d))
        if self.kind == 'py':
            vs.append(val(self.s[i], self.d))
        else:
            vs.append(val(self.s.get_as_tuple(i), self.d))
            vs.append(val(self.s.get_as_list(i), self.d))
        return vs[0] if all(x == vs[0] for x in vs) else BAD

    def set(self, i, v):
        if self.kind == 'py' and i % 2 == 0:
            self.s[i] = item(v, self.d)
        else:
            seg, off = self.s.get_segment_and_offset(i)
            seg[off] = item(v, self.d)

    def read(self, maxseg=None):
        """A loop over the segments; stops after maxseg segments.  Returns the segments' values and
        the full index reported for each item."""
        out, idx = [], []
        n, seg = self.s.init_out_loop()
        while n:
            out.append([val(seg[k], self.d) for k in range(n)])
            idx.append([int(self.s.get_full_index(k, 'out')) for k in range(n)])
            if maxseg is not None and len(out) >= maxseg:
                break
            if len(out) > 10000:
                break
            n, seg = self.s.get_next_segment('out')
        return out, idx

    def pass_(self, keep, change=None):
        """A pass that keeps the items whose 1-based position k has keep(k); returns the values
        read, and whether the full indices reported on the way were the real ones."""
        seen, okidx, k, kept = [], True, 0, 0
        n, sin, sout = self.s.init_inout_loop()
        ip = 0
        while n:
            for j in range(n):
                k += 1
                v = val(sin[j], self.d)
                seen.append(v)
                if keep(k):
                    if ip == self.L:
                        r = self.s.get_next_out_segment()
                        sout = r[0] if isinstance(r, tuple) else r
                        ip = 0
                    sout[ip] = sin[j]
                    if change:
                        sout[ip] = item(change(v), self.d)
                    fi = self.s.get_full_indices(j, ip)
                    cur = self.s.get_current_out_segment()
                    okidx = okidx and [int(fi[0]), int(fi[1])] == [k - 1, kept] \
                        and int(self.s.get_full_index(j, 'in')) == k - 1 \
                        and val(cur[ip], self.d) == val(sout[ip], self.d)
                    ip += 1
                    kept += 1
            if k > 100000:
                break
            r = self.s.get_next_segment('in')
            n, sin = r[0], r[1]
        self.s.set_number_of_items('out', kept)
        return seen, okidx

    def obs(self):
        n = int(self.s.get_number_of_items())
        segs = [int(a) for a in self.s.get_number_of_segments()]
        cap = [int(a) for a in self.s.get_capacity()]
        items = [self.get(i) for i in range(min(n, 3000))] if 0 <= n <= cap[1] else [BAD]
        return {'items': items, 'n': n, 'segs': segs, 'cap': cap}


KEEP = {'all': lambda k: True, 'none': lambda k: False, 'odd': lambda k: k % 2 == 1, 'tail': lambda k: k > 1}


def replay(histfile, out, kind, L):
    res = {'histories': 0, 'ops': 0, 'fail': []}
    with open(histfile) as f:
        for line in f:
            h = json.loads(line)
            st = None
            for n, step in enumerate(h):
                op, exp = step['op'], step['obs']
                bad = None
                try:
                    if op[0] == 'fill':
                        st = Store(kind, L)
                        for v in range(1, op[1] + 1):
                            st.push(v)
                    elif op[0] == 'push':
                        r = st.push(op[1])
                        w = len(exp['items']) - 1
                        if r != [w % L, w]:
                            bad = ('S01.ret', r)
                    elif op[0] in ('read', 'part'):
                        got, idx = st.read(None if op[0] == 'read' else 1)
                        if got != op[1]:
                            bad = ('S02.read', got)
                        elif [a for b in idx for a in b] != list(range(sum(len(b) for b in got))):
                            bad = ('S02.index', idx)
                    elif op[0] == 'pass':
                        prev = h[n - 1]['obs']['items']
                        seen, ok = st.pass_(KEEP[op[1]])
                        if seen != prev:
                            bad = ('S03.seen', seen)
                        elif not ok:
                            bad = ('S03.index', seen)
                    elif op[0] == 'trunc':
                        st.s.set_number_of_items('out', op[1])
                    elif op[0] == 'set':
                        st.set(op[1], op[2])
                    o = st.obs()
                    if bad is None and (o['items'] != exp['items'] or o['n'] != len(exp['items'])):
                        # after a read the fault is the reader's; after a pass, the pass's
                        last = [s['op'][0] for s in h[1:n + 1]]
                        cl = 'S03.items' if 'pass' in last[-1:] else 'S02.after' if ('read' in last or 'part' in last) else 'S01.items'
                        bad = (cl, o)
                    if bad is None and (o['segs'] != exp['segs'] or o['cap'] != [exp['segs'][0] * L, exp['segs'][1] * L]):
                        bad = ('S03.capacity', o)
                except Exception as e:
                    bad = ('crash', vlib.describe(e))
                res['ops'] += 1
                if bad:
                    res['fail'].append({'clause': bad[0], 'got': bad[1], 'step': n, 'hist': [s['op'] for s in h[:n + 1]], 'expected': exp})
                    break
            res['histories'] += 1
            if len(res['fail']) >= 20:
                break
    with open(out, 'w') as f:
        json.dump(res, f)


def rnd(out, kind, L, seed, nruns, nops):
    T = vlib.Trace(out)
    R = random.Random('%s-%s-%s' % (kind, L, seed))
    for run in range(nruns):
        T.put(ev='start', run=run, kind=kind, L=L)
        T.flush()
        try:
            st = Store(kind, L)
            nv = 1
            n = 0
            for _ in range(nops):
                o = R.choice(['push', 'push', 'push', 'grow', 'read', 'part', 'pass', 'pass', 'trunc', 'set', 'query'])
                ent = {'ev': o}
                if o == 'push':
                    ent['v'] = nv
                    ent['ret'] = st.push(nv)
                    nv += 1
                elif o == 'grow':
                    k = R.choice([L, 2 * L, L - 1, L + 1, 3 * L])
                    ent['k'] = k
                    ent['v'] = nv
                    ent['ret'] = [st.push(nv + j)[1] for j in range(k)]
                    nv += k
                elif o in ('read', 'part'):
                    m = None if o == 'read' else R.randint(1, 3)
                    got, idx = st.read(m)
                    ent['max'] = 0 if m is None else m
                    ent['got'] = got
                    ent['idx'] = idx
                elif o == 'pass':
                    pat = R.choice(['all', 'none', 'some', 'some', 'few', 'most', 'cut'])
                    pr = {'all': 1.0, 'none': 0.0, 'some': 0.5, 'few': 0.15, 'most': 0.9, 'cut': 0.5}[pat]
                    if pat == 'cut':            # keep exactly a whole number of segments
                        m = (n // L) * L
                        keep = [k < m for k in range(n)]
                        if R.random() < 0.5:
                            R.shuffle(keep)
                    else:
                        keep = [R.random() < pr for _ in range(n)]
                    ch = R.random() < 0.3
                    ent['keep'] = [1 if b else 0 for b in keep]
                    ent['add'] = 1000 if ch else 0
                    seen, ok = st.pass_(lambda k: k <= len(keep) and keep[k - 1], (lambda v: v + 1000) if ch else None)
                    ent['seen'] = seen
                    ent['okidx'] = 1 if ok else 0
                elif o == 'trunc':
                    m = R.choice([n, max(0, n - 1), (n // L) * L, R.randint(0, n)])
                    if R.random() < 0.7 and n > 2:
                        m = max(m, n - 2)
                    ent['n'] = m
                    st.s.set_number_of_items('out', m)
                elif o == 'set':
                    if n == 0:
                        continue
                    i = R.randrange(n)
                    ent['i'] = i
                    ent['v'] = nv
                    st.set(i, nv)
                    nv += 1
                ent['obs'] = st.obs()
                n = ent['obs']['n']
                T.put(**ent)
                if not 0 <= n <= 3000:
                    break
        except Exception as e:
            T.put(ev='crash', msg=vlib.describe(e))
    T.close()


if __name__ == '__main__':
    vlib.quiet_stdout()
    a = sys.argv[1:]
    if a[0] == 'replay':
        replay(a[1], a[2], a[3], int(a[4]))
    else:
        rnd(a[1], a[2], int(a[3]), a[4], int(a[5]), int(a[6]))
    vlib.done()
