"""Runs one check:  python mc/run.py C01 [--tier quick|thorough] [--replay FILE]

A check module mc/checks/cNN.py gives
    LEVEL, ASSUMPTIONS, tasks(tier) -> list of picklable work units,
    run(task, R)                    -> explores the unit, reports to R.
Units are explored by forked worker processes.  Every unit is deterministic,
so a replay file names the unit and the violation to look for.
"""
import argparse, concurrent.futures, hashlib, importlib, json, multiprocessing, os, resource, signal, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
REPO = os.environ.get('MC_REPO', '/repo')
TASK_SECONDS = {'quick': (200, 600), 'thorough': (3000, 9000)}       # of the processor, of the clock


class Hang(BaseException):
    pass


class Report:
    """What one work unit covered and found."""

    def __init__(self, task):
        self.task = task
        self.seen = set()
        self.nstates = 0          # states counted without hashing
        self.transitions = 0      # operations of the library executed
        self.traces = 0           # executions compared with the model
        self.evaluations = 0
        self.viol = {}
        self.samples = []
        self.extra = {}

    def state(self, key):
        self.seen.add(hash(key))

    def sample(self, x):
        if len(self.samples) < 1:
            self.samples.append(x)

    def add(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def bad(self, key, msg, **case):
        """Record a violation; key identifies the specific failing thing."""
        if key not in self.viol:
            self.viol[key] = (msg, case)

    def result(self):
        return dict(task=self.task, states=len(self.seen) + self.nstates,
                    transitions=self.transitions, traces=self.traces,
                    evaluations=self.evaluations, viol=self.viol,
                    samples=self.samples, extra=self.extra)


def _alarm(*_):
    raise Hang()


def work(a):
    mod, task, tier = a
    m = importlib.import_module('mc.checks.' + mod)
    r = Report(task)
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, TASK_SECONDS[tier][0])
    signal.setitimer(signal.ITIMER_REAL, TASK_SECONDS[tier][1])
    try:
        m.run(task, r)
    except Hang:
        r.bad(f'no-termination {task[0] if isinstance(task, (tuple, list)) else task}',
              'the library did not finish within the time of this work unit',
              where=traceback.format_exc()[-600:])
    except Exception as e:
        # Nothing raises here on a tree where the property holds: the unit is
        # deterministic, so an exception is an answer the model does not allow.
        fr = [f for f in traceback.extract_tb(e.__traceback__)]
        lib = [f for f in fr if f.filename.startswith(REPO + '/')]
        at = (lib or fr)[-1]
        r.bad(f'exception {type(e).__name__} in {at.name}',
              f'{type(e).__name__}: {e} at {os.path.basename(at.filename)}:{at.lineno} {at.name}',
              trace=''.join(traceback.format_exception(e))[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
    d = r.result()
    d['seconds'] = time.time() - t0
    return d


def known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    return {k['key']: k for k in json.load(open(p))['known'] if k['property'] == pid}


def explore(pid, tier, only=None):
    mod = pid.lower()
    m = importlib.import_module('mc.checks.' + mod)
    tasks = only if only is not None else m.tasks(tier)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    n = min(int(os.environ.get('MC_JOBS', '8')), len(tasks)) or 1
    res = []
    if n == 1:
        res = [work((mod, t, tier)) for t in tasks]
    else:
        with concurrent.futures.ProcessPoolExecutor(
                n, multiprocessing.get_context('fork')) as pool:
            res = list(pool.map(work, [(mod, t, tier) for t in tasks]))
    return m, tasks, res


def jsonable(x):
    if isinstance(x, bytes):
        return x.hex()
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, range)):
        return [jsonable(v) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    pid, tier = a.prop, a.tier
    t0 = time.time()
    only, want = None, None
    if a.replay:
        rep = json.load(open(a.replay))
        tier = rep['tier']
        m = importlib.import_module('mc.checks.' + pid.lower())
        only = [t for t in m.tasks(tier) if jsonable(t) == rep['task']]
        want = rep['key']
    m, tasks, res = explore(pid, tier, only)
    viol = {}
    order = {repr(t): i for i, t in enumerate(tasks)}
    for r in sorted(res, key=lambda r: order.get(repr(r['task']), 0)):
        for k, (msg, case) in r['viol'].items():
            if k not in viol:
                viol[k] = (msg, case, r['task'])
    if want is not None:
        hit = viol.get(want)
        print(f'replay of {want}: ' + (f'reproduced: {hit[0]}' if hit else 'not reproduced'))
        if hit:
            print(json.dumps(jsonable(hit[1]), indent=1))
        sys.exit(1 if hit else 0)
    kn = known(pid)
    for k in list(viol):
        if k in kn:
            print(f'KNOWN-FINDING: property={pid} {kn[k]["what"]}')
            del viol[k]
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(ev, 'replays'), exist_ok=True)
    for i, (k, (msg, case, task)) in enumerate(viol.items()):
        if i >= 25:
            print(f'... and {len(viol) - i} more')
            break
        path = os.path.join(ev, 'replays', f'{pid}-{hashlib.sha1(k.encode()).hexdigest()[:10]}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=pid, tier=tier, key=k, message=msg, task=jsonable(task),
                           case=jsonable(case),
                           how=f'/opt/venv/bin/python mc/run.py {pid} --replay {path}'), f, indent=1)
        print(f'VIOLATION property={pid} replay={path}')
        print(f'  {k}: {msg}')
    if os.environ.get('MC_TIMES'):
        for r in sorted(res, key=lambda r: -r['seconds'])[:12]:
            print(f'    {r["seconds"]:.2f}s {r["task"]}')
    tot = {x: sum(r[x] for r in res) for x in ('states', 'transitions', 'traces', 'evaluations')}
    extra = {}
    for r in res:
        for k, n in r['extra'].items():
            extra[k] = extra.get(k, 0) + n
    samples = [jsonable(s) for r in res for s in r['samples']][:4]
    if m.LEVEL == 'model_checking':
        cov = dict(states=tot['states'], transitions=tot['transitions'],
                   traces_validated_against_impl=tot['traces'], samples=samples)
    else:
        cov = dict(evaluations=tot['evaluations'], distinct_nontrivial=tot['states'],
                   rule=m.RULE, samples=samples)
        if tot['transitions']:
            cov['transitions'] = tot['transitions']
    cov.update(extra)
    cov['work_units'] = len(tasks)
    cov['exhaustive'] = True
    cov['bounds'] = m.BOUNDS[tier]
    doc = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=m.LEVEL,
               coverage=cov, assumptions=list(getattr(m, 'ASSUMPTIONS', [])),
               wall_s=round(time.time() - t0, 2), violations=len(viol))
    tmp = os.path.join(ev, f'.{pid}.{os.getpid()}')
    with open(tmp, 'w') as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, os.path.join(ev, f'{pid}.json'))
    print(f'{pid} {tier}: ' + ' '.join(f'{k}={v}' for k, v in tot.items() if v)
          + ''.join(f' {k}={v}' for k, v in extra.items())
          + f' units={len(tasks)} violations={len(viol)} {doc["wall_s"]}s')
    if not (tot['traces'] or tot['evaluations']):
        print('nothing was explored')
        sys.exit(2)
    sys.exit(1 if viol else 0)


if __name__ == '__main__':
    main()
