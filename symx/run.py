"""Check driver: runs the obligations of one property, decides them with z3, replays
counterexamples on the unmodified code and writes the evidence file."""
import importlib.util
import json
import os
import subprocess
import sys
import time
import traceback
import multiprocessing as mp

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'known_findings.jsonl')


def load_check(pid):
    path = os.path.join(ROOT, 'checks', pid + '.py')
    spec = importlib.util.spec_from_file_location('check_' + pid, path)
    m = importlib.util.module_from_spec(spec)
    sys.modules['check_' + pid] = m
    spec.loader.exec_module(m)
    return m


def worker(pid, idx, tier, q):
    """Runs in its own process; sends back a result dict."""
    sys.path.insert(0, ROOT)
    from symx import core
    sys.setrecursionlimit(20000)
    t = time.time()
    out = dict(idx=idx, obligations=[], error=None, functions=[], paths=0)
    try:
        chk = load_check(pid)
        task = chk.tasks(tier)[idx]
        out['name'] = task.name
        res = task.run(chk)
        out['obligations'] = res.obligations
        out['paths'] = res.paths
        out['functions'] = sorted(res.functions)
        out['samples'] = res.samples
    except (core.Unsupported, core.Inconclusive) as e:
        out['error'] = '%s: %s' % (type(e).__name__, e)
    except BaseException:
        out['error'] = traceback.format_exc()
    out['solver'] = core.STATS.as_dict()
    out['wall'] = time.time() - t
    q.put(out)
    q.close()
    q.join_thread()
    os._exit(0)


class Result:
    def __init__(self):
        self.obligations = []     # dict(name, status, ...)
        self.paths = 0
        self.functions = set()
        self.samples = []

    def ok(self, name, **kw):
        self.obligations.append(dict(name=name, status='proved', **kw))

    def bad(self, name, what, ce, **kw):
        self.obligations.append(dict(name=name, status='violated', what=what, ce=ce, **kw))

    def unk(self, name, what):
        self.obligations.append(dict(name=name, status='inconclusive', what=what))


class Task:
    def __init__(self, name, fn, *args, weight=1):
        self.name, self.fn, self.args, self.weight = name, fn, args, weight

    def run(self, chk):
        r = Result()
        self.fn(r, *self.args)
        return r


def run_tasks(pid, tier, n, jobs, limit):
    ctx = mp.get_context('fork')
    pending = list(range(n))
    chk = load_check(pid)
    ts = chk.tasks(tier)
    pending.sort(key=lambda i: ts[i].weight)      # heaviest popped first
    running = {}
    results = {}
    t_start, early = time.time(), False
    t_end = t_start + limit
    while pending or running:
        while pending and len(running) < jobs:
            i = pending.pop()
            q = ctx.Queue()
            p = ctx.Process(target=worker, args=(pid, i, tier, q))
            p.start()
            running[i] = (p, q)
        for i in list(running):
            p, q = running[i]
            try:
                r = q.get(timeout=0.02)
                results[i] = r
                p.join(5)
                if p.is_alive():
                    p.kill()
                del running[i]
            except Exception:
                if not p.is_alive():
                    try:
                        results[i] = q.get(timeout=0.5)
                    except Exception:
                        results[i] = dict(idx=i, name=ts[i].name, obligations=[], functions=[],
                                          paths=0, error='worker died (exit %s)' % p.exitcode,
                                          solver=dict(queries=0, time=0, sat=0, unsat=0, unknown=0),
                                          wall=0)
                    del running[i]
        if not early and any(o['status'] == 'violated' for r in results.values() for o in r['obligations']):
            early = True                 # leave time for the replays
            t_end = min(t_end, max(time.time() + 60, t_start + limit * 0.3))
        if time.time() > t_end:
            for i, (p, q) in running.items():
                p.kill()
                results[i] = dict(idx=i, name=ts[i].name, obligations=[], functions=[], paths=0,
                                  error='time limit of the check reached',
                                  solver=dict(queries=0, time=0, sat=0, unsat=0, unknown=0), wall=limit)
            for i in pending:
                results[i] = dict(idx=i, name=ts[i].name, obligations=[], functions=[], paths=0,
                                  error='not started: time limit reached',
                                  solver=dict(queries=0, time=0, sat=0, unsat=0, unknown=0), wall=0)
            break
    return [results[i] for i in range(n)]


def known():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line and not line.startswith('#'):
                out.append(json.loads(line))
    return out


def belongs(case, name):
    """cases are named like their task, or task name + '|' + detail (task names may contain '|')"""
    return case == name or case.startswith(name + '|')


def named(table, case):
    return next((v for n, v in table.items() if belongs(case, n)), None)


def replay(pid, ce, path, timeout=600):
    with open(path, 'w') as f:
        json.dump(dict(property=pid, ce=ce), f, indent=1, default=str)
    p = subprocess.run([sys.executable, '-B', os.path.join(ROOT, 'symx', 'replay.py'), path],
                       capture_output=True, text=True, timeout=timeout)
    return p.returncode, (p.stdout + p.stderr)[-3000:]


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    chk = load_check(pid)
    ts = chk.tasks(tier)
    limit = 740 if tier == 'quick' else 6 * 3600
    jobs = int(os.environ.get('SYMX_JOBS', '8'))
    res = run_tasks(pid, tier, len(ts), jobs, limit)
    proved = violated = 0
    errors, viol, kf = [], [], []
    sol = dict(queries=0, time=0.0, sat=0, unsat=0, unknown=0)
    funcs = set()
    samples = []
    paths = 0
    known_here = [k for k in known() if k.get('property') == pid and k.get('status', 'known') == 'known']
    os.makedirs(EVID, exist_ok=True)
    nrep = 0
    last = t0 + (limit if tier == 'quick' else limit + 3600)    # no further replays once one reproduced
    for r in sorted(res, key=lambda r: r['wall']):
        for k in sol:
            sol[k] += r['solver'][k]
        funcs.update(r['functions'])
        paths += r['paths']
        for s in r.get('samples', [])[:3]:
            if len(samples) < 40:
                samples.append(s)
        if r['error']:
            errors.append('%s: %s' % (r.get('name', r['idx']), r['error']))
        for o in r['obligations']:
            if o['status'] == 'proved':
                proved += 1
            elif o['status'] == 'inconclusive':
                errors.append('%s: %s' % (o['name'], o['what']))
            else:
                hit = [k for k in known_here if k['match'] == o['name']]
                if hit:
                    kf.append((o, hit[0]))
                    continue
                left = last - time.time()
                if viol and (nrep >= 12 or left < 0):
                    continue
                nrep += 1
                path = os.path.join(EVID, 'replay-%s-%d.json' % (pid, nrep))
                try:
                    rc, txt = replay(pid, o['ce'], path, max(20, min(600, left + 120)))
                except subprocess.TimeoutExpired:
                    rc, txt = 2, 'replay timed out'
                if rc == 1:
                    violated += 1
                    viol.append((o, path, txt))
                else:
                    errors.append('%s: counterexample did not reproduce on the real code (%s): %s'
                                  % (o['name'], rc, txt))
    wall = time.time() - t0
    if not samples:
        samples = ['none']
    cov = dict(violation_details=[dict(replay=p, summary='%s: %s' % (o['name'], o['what'])) for o, p, _ in viol],
               obligations=proved + len(viol) + len(kf), discharged=proved,
               explanation=chk.EXPLAIN, bounds=chk.BOUNDS[tier] if isinstance(chk.BOUNDS, dict) else chk.BOUNDS,
               functions_encoded=sorted(funcs), tasks=len(ts), paths=paths,
               queries=sol['queries'], queries_unsat=sol['unsat'], queries_sat=sol['sat'],
               queries_unknown=sol['unknown'], solver_time_s=round(sol['time'], 3),
               solver='z3 ' + z3v(), samples=samples, inconclusive=len(errors))
    ev = dict(property=pid, tier=tier, seed=seed, level=chk.LEVEL, coverage=cov,
              wall_s=round(wall, 2), assumptions=chk.ASSUME,
              violations=len(viol))
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for o, k in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for o, p, txt in viol:
        print('VIOLATION property=%s replay=%s' % (pid, p))
        print('  %s: %s' % (o['name'], o['what']))
        print('  ' + txt.strip().replace('\n', '\n  '))
    for e in errors[:20]:
        print('INCONCLUSIVE %s: %s' % (pid, e))
    print('%s %s: %d obligations proved, %d violated, %d known, %d inconclusive; %d paths, %d queries, '
          'solver %.1fs, wall %.1fs' % (pid, tier, proved, violated, len(kf), len(errors), paths,
                                        sol['queries'], sol['time'], wall))
    if viol:
        return 1
    if errors and proved < len(errors):
        return 2          # most of the check gave no answer
    if proved == 0:
        print('INCONCLUSIVE %s: nothing was checked' % pid)
        return 2
    return 0


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    sys.path.insert(0, ROOT)
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    sys.exit(main(pid, tier))
