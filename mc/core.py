"""Job runner, counters, verdicts, known findings, evidence."""

import os
import sys
import json
import time
import signal
import traceback
import collections

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

HANG_S = 120          # no progress for this long inside one step = the code under test does not return
MAX_FAILS = 8         # distinct violations kept per job


class Hang(BaseException):
    pass


class StopJob(BaseException):
    pass


class Ctx(object):
    """What a job reports into.  state(): canonical key of a visited state; trans(): one step of the real
    code; trace(): one complete execution compared with the reference."""

    def __init__(self, name, tier, seed):
        self.name, self.tier, self.seed = name, tier, seed
        self._states = set()
        self.transitions = 0
        self.traces = 0
        self._outcomes = set()
        self.samples = []
        self.fails = collections.OrderedDict()
        self.notes = collections.Counter()
        self.known = {}

    def state(self, key):
        h = hash(key)
        if h in self._states:
            return False
        self._states.add(h)
        return True

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, key):
        self._outcomes.add(hash(key))

    def note(self, key, n=1):
        self.notes[key] += n

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def fail(self, key, msg, **detail):
        """Report a violation.  `key` names the failing input / history; equal keys are reported once."""
        if key in self.known:
            self.notes['KNOWN ' + key] += 1
            return
        if key not in self.fails:
            self.fails[key] = dict(key=key, job=self.name, message=msg,
                                   detail={k: _plain(v) for k, v in detail.items()})
        if len(self.fails) >= MAX_FAILS:
            raise StopJob()

    def check(self, cond, key, msg, **detail):
        if not cond:
            self.fail(key, msg, **detail)
        return bool(cond)

    def guard(self, key, fn, *a, **kw):
        """call code under test; an exception is a violation. Returns (ok, value)"""
        try:
            return True, fn(*a, **kw)
        except Exception as e:
            self.fail(key, 'unexpected %s: %s' % (type(e).__name__, e), trace=_tb())
            return False, None


def _tb():
    return traceback.format_exc().strip().splitlines()[-8:]


def _plain(v):
    try:
        json.dumps(v)
        return v
    except (TypeError, ValueError):
        pass
    if isinstance(v, dict):
        return {str(k): _plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, set)):
        return [_plain(x) for x in v]
    if hasattr(v, 'tolist'):
        return _plain(v.tolist())
    return repr(v)


def run_job(job, tier, seed, known):
    from mc import rng
    name, fn, args = job
    ctx = Ctx(name, tier, seed)
    ctx.known = known
    rng.seed(seed * 7919 + 13)
    t0 = time.time()
    beat = [None, 0]

    def on_alarm(sig, frame):
        now = (ctx.transitions, ctx.traces, len(ctx._states))
        if now == beat[0]:
            beat[1] += 1
            if beat[1] * 10 >= HANG_S:
                raise Hang()
        else:
            beat[0], beat[1] = now, 0

    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, 10, 10)
    harness_error = None
    out, sys.stdout = sys.stdout, open(os.devnull, 'w')      # the code under test may print
    try:
        fn(ctx, *args)
    except StopJob:
        pass
    except Hang:
        key = 'hang:' + name
        if key not in ctx.fails:
            ctx.fails[key] = dict(key=key, job=name, message='no progress for %d s: the call does not return' % HANG_S,
                                  detail=dict(trace=traceback.format_exc().strip().splitlines()[-12:]))
    except Exception as e:
        from mc.choice import Divergence
        tb = traceback.extract_tb(sys.exc_info()[2])
        in_repo = any(f.filename.startswith(REPO + '/') for f in tb)
        if in_repo and not isinstance(e, Divergence):
            # raised by, or underneath, the code under test on an input the property covers
            key = 'exception:%s:%s' % (name, type(e).__name__)
            if key in known:
                ctx.notes['KNOWN ' + key] += 1
            else:
                ctx.fails[key] = dict(key=key, job=name, message='unexpected %s: %s' % (type(e).__name__, e),
                                      detail=dict(trace=traceback.format_exc().strip().splitlines()[-12:]))
        else:
            harness_error = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout.close()
        sys.stdout = out
    return dict(name=name, states=len(ctx._states), transitions=ctx.transitions, traces=ctx.traces,
                outcomes=len(ctx._outcomes), samples=ctx.samples, fails=list(ctx.fails.values()),
                notes=dict(ctx.notes), wall=time.time() - t0, error=harness_error)


def load_known(prop):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {e['key']: e for e in data.get('known', []) if e['property'] == prop}


_G = {}


def _serve(conn, jit):
    """a worker process: takes job numbers, gives results"""
    if not jit:
        try:
            import pypyjit
            pypyjit.set_param('off')
        except ImportError:
            pass
    while True:
        i = conn.recv()
        if i is None:
            os._exit(0)
        conn.send(run_job(_G['jobs'][i], _G['tier'], _G['seed'], _G['known']))


def run_jobs(n, nproc):
    """Jobs on forked workers.  A job whose worker dies (the JIT compiler of the interpreter has been seen to crash) is run once more
    without the JIT; if that dies too, it is a harness error."""
    import multiprocessing as mp
    from multiprocessing.connection import wait
    ctx = mp.get_context('fork')
    todo = [(i, True) for i in range(n)]
    idle, busy, results = [], {}, []

    def start(jit):
        mine, theirs = ctx.Pipe()
        p = ctx.Process(target=_serve, args=(theirs, jit))
        p.daemon = True
        p.start()
        theirs.close()
        return p, mine, jit

    while todo or busy:
        while todo and len(busy) < nproc:
            i, jit = todo.pop(0)
            w = idle.pop() if jit and idle else start(jit)
            w[1].send(i)
            busy[w[1]] = (i, w)
        for c in wait(list(busy)):
            i, w = busy.pop(c)
            try:
                results.append(c.recv())
            except EOFError:
                w[0].join()
                if w[2]:
                    todo.append((i, False))
                else:
                    results.append(dict(name=_G['jobs'][i][0], states=0, transitions=0, traces=0, outcomes=0, samples=[], fails=[], notes={},
                                        wall=0., error='the process died (exit code %s)' % w[0].exitcode))
                continue
            if w[2]:
                idle.append(w)
            else:
                c.send(None)
    for w in idle:
        w[1].send(None)
    return results


def run_check(prop, module, tier, seed, only=None, nproc=None):
    t0 = time.time()
    known = load_known(prop)
    jobs = [j for j in module.jobs(tier, seed) if only is None or j[0] == only]
    if not jobs:
        print('no such job: %s' % only)
        return 2
    _G.update(jobs=jobs, tier=tier, seed=seed, known=known)
    nproc = nproc or int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
    results = run_jobs(len(jobs), nproc)
    order = {j[0]: i for i, j in enumerate(jobs)}
    results.sort(key=lambda r: order[r['name']])
    wall = time.time() - t0

    errors = [r for r in results if r['error']]
    fails = [f for r in results for f in r['fails']]
    notes = collections.Counter()
    for r in results:
        notes.update(r['notes'])
    states = sum(r['states'] for r in results)
    trans = sum(r['transitions'] for r in results)
    traces = sum(r['traces'] for r in results)
    samples = [dict(job=r['name'], case=s) for r in results for s in r['samples'][:1]][:12]

    if only is None:
        cov = dict(states=states, transitions=trans, traces_validated_against_impl=traces,
                   samples=samples or ['(none)'],
                   distinct_outcomes=sum(r['outcomes'] for r in results),
                   exhaustive=True,
                   explanation=' '.join((module.__doc__ or '').split()),
                   jobs=[dict(job=r['name'], states=r['states'], transitions=r['transitions'],
                              traces=r['traces'], outcomes=r['outcomes'], wall_s=round(r['wall'], 2))
                         for r in results],
                   notes={k: v for k, v in notes.items() if not k.startswith('KNOWN ')})
        ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
                  assumptions=getattr(module, 'ASSUMPTIONS', []), wall_s=round(wall, 2),
                  violations=len(fails))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)

    for k in sorted(known):
        hit = notes.get('KNOWN ' + k, 0)
        print('KNOWN-FINDING: property=%s %s%s' % (prop, known[k]['what'], '' if hit else ' (not reproduced in this run)'))
    print('%s %s: jobs=%d states=%d transitions=%d traces=%d violations=%d wall=%.1fs'
          % (prop, tier, len(results), states, trans, traces, len(fails), wall))
    for r in sorted(results, key=lambda r: -r['wall'])[:4]:
        print('   %-40s %7.1fs states=%d transitions=%d traces=%d outcomes=%d'
              % (r['name'][:40], r['wall'], r['states'], r['transitions'], r['traces'], r['outcomes']))
    if fails:
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        for i, f in enumerate(fails[:10]):
            path = os.path.join(d, '%s-%d.json' % (prop, i))
            with open(path, 'w') as fh:
                json.dump(dict(property=prop, tier=tier, seed=seed, replay='bash run.sh %s --replay %s' % (prop, path), **f),
                          fh, indent=1, default=repr)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('   [%s] %s: %s' % (f['job'], f['key'], f['message']))
            for k, v in list(f['detail'].items())[:6]:
                print('      %s = %s' % (k, str(v)[:600]))
        if len(fails) > 10:
            print('   ... and %d more' % (len(fails) - 10))
        return 1
    if errors:
        for r in errors:
            print('HARNESS ERROR in job %s\n%s' % (r['name'], r['error']))
        return 2
    return 0
