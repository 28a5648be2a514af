"""Seeded search over plans: run many, stop at the first violation, minimise it, prove it replays, write the evidence."""
import gc
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import env
from .util import Rng, Violation, derive, digest

VERIF = env.VERIF
RUN_LIMIT_S = 150


class Timeout(BaseException):
    pass


def _alarm(signum, frame):
    raise Timeout()


class Outcome:
    __slots__ = ('cls', 'msg', 'stats', 'sig', 'states', 'log', 'nontrivial')

    def __init__(self):
        self.cls = self.msg = None
        self.stats, self.sig, self.states, self.log, self.nontrivial = {}, '', set(), '', False


def scratch_root():
    for base in ('/dev/shm', None):
        try:
            return tempfile.mkdtemp(prefix='vsim_', dir=base)
        except OSError:
            continue
    raise RuntimeError('no scratch space')


def execute(prop, plan, timeout=RUN_LIMIT_S):
    """Run one plan; never raises for what the plan or the library does."""
    import numpy as np
    from . import registry
    from .callbacks import SWITCH
    out = Outcome()
    SWITCH.reset()
    random.seed(plan.get('pyseed', 0))
    np.random.seed(plan.get('pyseed', 0) % (2 ** 32))
    scratch = scratch_root()
    cwd = os.getcwd()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(timeout))
    try:
        with np.errstate(all='ignore'):
            registry.PROPS[prop].execute(plan, out, scratch)
    except Violation as v:
        out.cls, out.msg = v.cls, v.msg
    except Timeout:
        out.cls, out.msg = 'liveness', 'the run did not finish within %d s' % timeout
    except Exception as e:
        # reading a result failed: either the library raised or it returned something of another shape
        at = ['%s:%s' % (os.path.basename(f.filename), f.name) for f in traceback.extract_tb(e.__traceback__)][-4:]
        out.cls, out.msg = 'exception', 'unexpected %s: %s (%s)' % (type(e).__name__, str(e).strip()[:300], ' > '.join(at))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    return out


def make_plan(prop, seed, i):
    from . import registry
    s = derive(prop, seed, i)
    r = Rng(s)
    plan = registry.PROPS[prop].plan(r)
    plan['prop'], plan['seed'], plan['pyseed'] = prop, s, s % (2 ** 31)
    # through JSON, so that what runs is exactly what a replay file holds
    return json.loads(json.dumps(plan))


# ---- workers -----------------------------------------------------------------------------------------------------

def _worker(k, n_workers, prop, seed, n, deadline, stop, current, q):
    try:
        env.load()
        gc.disable()
        for i in range(k, n, n_workers):
            if stop.is_set() or time.time() > deadline:
                break
            current.value = i
            plan = make_plan(prop, seed, i)
            o = execute(prop, plan)
            q.put((i, plan['seed'], o.cls, o.msg, o.stats, o.sig, list(o.states), o.log, o.nontrivial))
            if i % 16 == k % 16:
                gc.collect()
            if o.cls:
                stop.set()
                break
        q.put(('done', k))
    except BaseException:
        q.put(('error', k, traceback.format_exc()))


def search(prop, seed, n, workers, budget):
    ctx = mp.get_context('fork')
    stop, q = ctx.Event(), ctx.Queue()
    cur = [ctx.Value('l', -1) for _ in range(workers)]
    deadline = time.time() + budget
    procs = [ctx.Process(target=_worker, args=(k, workers, prop, seed, n, deadline, stop, cur[k], q), daemon=True) for k in range(workers)]
    for p in procs:
        p.start()
    alive, results, errors = set(range(workers)), [], []
    import queue
    while alive:
        try:
            m = q.get(timeout=2)
        except queue.Empty:
            for k in list(alive):
                if not procs[k].is_alive() and q.empty():
                    alive.discard(k)
                    errors.append((cur[k].value, 'worker died with exit code %s while running plan %d' % (procs[k].exitcode, cur[k].value)))
            continue
        if m[0] == 'done':
            alive.discard(m[1])
        elif m[0] == 'error':
            alive.discard(m[1])
            errors.append((cur[m[1]].value, m[2]))
        else:
            results.append(m)
    for p in procs:
        p.join(10)
        if p.is_alive():
            p.kill()
    return results, errors


# ---- minimising --------------------------------------------------------------------------------------------------

def same(o, cls, msg):
    if o.cls != cls:
        return False
    if cls == 'exception':
        return o.msg.split(':')[0] == msg.split(':')[0]
    return True


def in_child(prop, plan, timeout=RUN_LIMIT_S):
    """Execute in a forked child, so that what a faulty run leaves in the process cannot influence the next."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            o = execute(prop, plan, timeout)
            with os.fdopen(w, 'w') as f:
                json.dump([o.cls, o.msg], f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    o = Outcome()
    try:
        o.cls, o.msg = json.loads(data)
    except ValueError:
        o.cls, o.msg = 'crash', 'the process died'
    return o


def shrink(prop, plan, cls, msg, limit=90.0):
    from . import registry
    t0 = time.time()
    tries = [0]

    def bad(p):
        if time.time() - t0 > limit:
            return False
        tries[0] += 1
        return same(in_child(prop, p, 60), cls, msg)

    P = registry.PROPS[prop]
    best = plan
    for key in P.lists:
        # drop chunks of halving size
        n = max(1, len(best.get(key, [])) // 2)
        while n >= 1 and time.time() - t0 < limit:
            i = 0
            while i < len(best.get(key, [])):
                cand = json.loads(json.dumps(best))
                del cand[key][i:i + n]
                if bad(cand):
                    best = cand
                else:
                    i += n
            n //= 2
    cfg_keys = [k for k in best if k.startswith('cfg')]
    for ck in cfg_keys:
        i = 0
        while i < len(best[ck]['mods']) and time.time() - t0 < limit:
            cand = json.loads(json.dumps(best))
            del cand[ck]['mods'][i]
            if any(m['kind'] in ('load', 'ren', 'grid') for m in cand[ck]['mods']) and bad(cand):
                best = cand
            else:
                i += 1
        for field in ('shaper', 'traj'):
            if best[ck].get(field) is not None:
                cand = json.loads(json.dumps(best))
                cand[ck][field] = None
                if bad(cand):
                    best = cand
        for i, m in enumerate(best[ck]['mods']):
            if m.get('fc') is not None:
                cand = json.loads(json.dumps(best))
                cand[ck]['mods'][i]['fc'] = None
                if bad(cand):
                    best = cand
    return best, tries[0]


def replay(path):
    """Run a replay file; 1 and the VIOLATION line if it fails as recorded, 0 if nothing fails."""
    env.load()
    rec = json.load(open(path))
    o = execute(rec['property'], rec['plan'])
    if o.cls:
        print('%s: %s' % (o.cls, o.msg))
        print('VIOLATION property=%s replay=%s' % (rec['property'], path))
        return 1
    print('not reproduced')
    return 0


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith('fixed:') and not line.startswith('#'):
                d = json.loads(line)
                if d['property'] == prop:
                    out.append(d)
    return out


def check(prop, tier, seed):
    t0 = time.time()
    env.load()
    from . import registry
    P = registry.PROPS[prop]
    n = P.runs[tier]
    n = int(os.environ.get('VERIF_RUNS', n))
    workers = int(os.environ.get('VERIF_WORKERS', min(8, os.cpu_count() or 1)))
    budget = 600 if tier == 'quick' else 6 * 3600
    print('property %s, tier %s, seed %d, %d runs on %d workers, code from %s' % (prop, tier, seed, n, workers, env.REPO), flush=True)
    results, errors = search(prop, seed, n, workers, budget)
    results.sort(key=lambda m: m[0])
    violations = [m for m in results if m[2]]
    known = []
    for m in list(violations):
        for k in known_findings(prop):
            if k['class'] == m[2] and k['match'] in m[3]:
                known.append((k, m))
                violations.remove(m)
                break
    for k in {json.dumps(k, sort_keys=True) for k, _ in known}:
        print('KNOWN-FINDING: property=%s %s' % (prop, json.loads(k)['what']))
    fail = None
    if violations:
        m = violations[0]
        plan = make_plan(prop, seed, m[0])
        fail = (m[0], plan, m[2], m[3])
    elif errors:
        i, text = errors[0]
        if i >= 0 and 'worker died' in text:
            fail = (i, make_plan(prop, seed, i), 'crash', text)
        else:
            print('harness error:\n' + text, file=sys.stderr)
            write_evidence(P, prop, tier, seed, results, t0, 0, ['harness error'])
            return 2
    replay_path = None
    extra = []
    if fail:
        i, plan, cls, msg = fail
        small, tries = shrink(prop, plan, cls, msg)
        o = in_child(prop, small)
        if not same(o, cls, msg):
            small, o = plan, Outcome()
            o.cls, o.msg = cls, msg
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        replay_path = os.path.join(rdir, '%s-%d-%d.json' % (prop, seed, i))
        json.dump(dict(property=prop, seed=plan['seed'], verif_seed=seed, index=i, violation_class=cls, message=o.msg, plan=small,
                       original_sizes={k: len(plan.get(k, [])) for k in P.lists}, shrink_executions=tries), open(replay_path, 'w'), indent=1)
        rc = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), '--replay', replay_path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                            timeout=400).returncode
        if rc != 1:
            print('note: the minimised run did not reproduce in a fresh process (exit %s); keeping the original plan' % rc)
            rec = json.load(open(replay_path))
            rec['plan'] = plan
            json.dump(rec, open(replay_path, 'w'), indent=1)
        print('violated (%s): %s' % (cls, o.msg))
        print('seed %d (index %d); minimised from %s to %s' % (plan['seed'], i, {k: len(plan.get(k, [])) for k in P.lists}, {k: len(small.get(k, [])) for k in P.lists}))
    write_evidence(P, prop, tier, seed, results, t0, 1 if fail else 0, extra)
    if fail:
        print('VIOLATION property=%s replay=%s' % (prop, replay_path))
        return 1
    if len(results) < min(n, 20):
        print('only %d of %d runs finished in the time allowed' % (len(results), n), file=sys.stderr)
        return 2
    print('held on %d runs (%.0f s)' % (len(results), time.time() - t0))
    return 0


def write_evidence(P, prop, tier, seed, results, t0, n_viol, extra):
    wall = time.time() - t0
    stats, sigs, states, logs = {}, set(), set(), []
    nontrivial = set()
    for i, s, cls, msg, st, sig, ss, log, nt in results:
        for k, v in st.items():
            stats[k] = stats.get(k, 0) + v
        sigs.add(sig)
        if nt:
            nontrivial.add(sig)
        states.update(ss)
        logs.append((i, log))
    samples = []
    for m in results[:3]:
        plan = make_plan(prop, seed, m[0])
        text = json.dumps(plan)
        samples.append(dict(index=m[0], seed=m[1], plan=plan if len(text) < 6000 else text[:6000] + '...', event_log_digest=m[7]))
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', wall_s=round(wall, 2), violations=n_viol,
              coverage=dict(
                  evaluations=len(results), distinct_nontrivial=len(nontrivial), rule=P.rule, samples=samples,
                  distinct_runs=len(sigs), distinct_abstract_states=len(states),
                  state_measure='per completed step: (battery empty/partial/full, genset machine state, grid up/down, deficit/surplus/balanced, start/middle/end/past of episode) '
                                'of all modules; per run: the sequence of those and of the operations and faults',
                  runs_per_hour=round(len(results) / max(wall, 1e-9) * 3600), seeds=len({m[1] for m in results}),
                  simulated_steps=stats.get('steps', 0), simulated_time='%d simulated hours (one step is one hour)' % stats.get('steps', 0),
                  faults_injected={k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault:')},
                  operations={k[3:]: v for k, v in sorted(stats.items()) if k.startswith('op:')},
                  expectations_evaluated={k[4:]: v for k, v in sorted(stats.items()) if k.startswith('chk:')},
                  probes={k: v for k, v in sorted(stats.items()) if ':' not in k or k.split(':')[0] in ('restores', 'sched', 'disk')},
                  mismatches_belonging_to_other_properties={k[8:]: v for k, v in sorted(stats.items()) if k.startswith('foreign:')},
                  event_log_digest=digest(sorted(logs)),
                  real_components=P.real, stub_components=P.stub),
              assumptions=P.assumptions + extra)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % prop)
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))
