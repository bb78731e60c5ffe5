#!/usr/bin/env python3
"""check.py <property> [--thorough] [--keep]   decide one property of the tree in $VERIF_REPO (/repo).

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=<id> replay=<path>": broken.
Exit 2: the machinery itself failed.
"""
import json, os, shutil, sys, time, traceback, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import core
from props import PROPS


def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    p = PROPS[pid]
    t0 = time.time()
    c = core.Ctx(pid, tier, seed)
    rc = 2
    try:
        try:
            importlib.import_module(p['family']).run(c)
        except core.Broken as e:
            print('CHECK-ERROR: %s' % e)
            return 2
        except Exception:
            traceback.print_exc(file=sys.stdout)
            return 2
        mine = [f for f in c.fails if belongs(f['clause'], p['clauses'])]
        other = sorted({f['clause'] for f in c.fails} - {f['clause'] for f in mine})
        known = json.load(open(os.path.join(core.VERIF, 'known_findings.json'))).get('known', [])
        new, old = [], []
        for f in mine:
            k = [k for k in known if k['property'] == pid and k['clause'] == f['clause'] and k['match'] in json.dumps(f['detail'])]
            (old if k else new).append((f, k[0] if k else None))
        for w in sorted({k['what'] for _, k in old}):
            print('KNOWN-FINDING: property=%s %s' % (pid, w))
        cov = {'states': c.states, 'transitions': c.transitions, 'traces_validated_against_impl': c.traces,
               'events_compared': c.events, 'samples': c.samples[:4], 'parts': c.parts[:80],
               'clauses': p['clauses']}
        os.makedirs(core.EVID, exist_ok=True)
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
              'assumptions': p.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': len(new)}
        with open(os.path.join(core.EVID, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if other:
            print('note: clauses of other properties also failed: %s' % ', '.join(other))
        if not new:
            print('OK property=%s tier=%s states=%d traces=%d events=%d %.1fs' % (pid, tier, c.states, c.traces, c.events, time.time() - t0))
            return 0
        rd = os.path.join(core.BUILD, 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + '.json')
        keep = []
        for n, (f, _) in enumerate(new[:10]):
            if f['replay'] and os.path.exists(f['replay']) and os.path.getsize(f['replay']) < 50_000_000:
                dst = os.path.join(rd, pid + '-' + os.path.basename(f['replay']))
                if dst not in keep:
                    shutil.copy(f['replay'], dst)
                    keep.append(dst)
                f = dict(f, replay=dst)
            new[n] = (f, None)
        with open(rp, 'w') as fo:
            json.dump([f for f, _ in new[:40]], fo, indent=1)
        seen = set()
        for f, _ in new:
            if f['clause'] not in seen:
                seen.add(f['clause'])
                print('  %s: %s: %s' % (f['clause'], f['source'], json.dumps(f['detail'])[:900]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    finally:
        c.pool.shutdown(wait=False, cancel_futures=True)
        if '--keep' not in sys.argv:
            shutil.rmtree(c.work, ignore_errors=True)


def belongs(clause, pats):
    return any(clause == p or (p.endswith('*') and clause.startswith(p[:-1])) for p in pats)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
