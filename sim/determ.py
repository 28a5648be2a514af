"""C11: the same plan executed again under perturbed surroundings: other process and hash seed, shuffled directory listings,
jumping clocks, other entropy, prior use of the library. Random numbers are seeded once, at the start of a history.
"""
import builtins
import copy
import glob
import io
import json
import os
import random
import subprocess
import sys
import time

import numpy as np

from . import env, gen
from .disk import scenario_print
from .props import STUB, BASE, WorldProp
from .restore import first_difference, near
from .util import Rng, Violation, canon, digest
from .world import StopRun, World, same_rng


class Surroundings:
    """Clock, directory order and entropy, decided by a number."""

    def __init__(self, k):
        self.k = k

    def __enter__(self):
        r = Rng(self.k)
        self.saved = {}
        clock = [r.uniform(1e9, 2e9)]

        def tick():
            clock[0] += r.pick((5, 0.001), (1, 3600.0), (1, -7200.0), (1, 1e6))
            return clock[0]

        def patch(mod, name, fn):
            self.saved[(mod, name)] = getattr(mod, name)
            setattr(mod, name, fn)
        for name in ('time', 'monotonic', 'perf_counter'):
            patch(time, name, tick)
        patch(time, 'time_ns', lambda: int(tick() * 1e9))
        real_listdir, real_scandir, real_urandom = os.listdir, os.scandir, os.urandom

        def listdir(*a):
            out = sorted(real_listdir(*a), key=str)
            r.shuffle(out)
            return out

        class Scan:
            def __init__(self, it):
                self.list = sorted(it, key=lambda e: str(e.name))
                it.close()
                r.shuffle(self.list)

            def __iter__(self):
                return iter(self.list)

            def __next__(self):
                raise StopIteration

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return None

            def close(self):
                pass
        patch(os, 'listdir', listdir)
        patch(os, 'scandir', lambda *a: Scan(real_scandir(*a)))
        patch(os, 'urandom', lambda n: bytes(r.getrandbits(8) for _ in range(n)))
        return self

    def __exit__(self, *exc):
        for (mod, name), fn in self.saved.items():
            setattr(mod, name, fn)


def gen_print(mg):
    if hasattr(mg, 'modules'):
        return scenario_print(mg)
    out = [mg.architecture, mg.horizon if not hasattr(mg, 'parameters') else None]
    p = mg.parameters
    out.append(canon({c: p[c].tolist() for c in p.columns}))
    for name in ('_load_ts', '_pv_ts', '_grid_status_ts', '_grid_price_import', '_grid_price_export', '_grid_co2'):
        v = getattr(mg, name, None)
        if v is not None:
            out.append([name, digest(canon(np.asarray(v).tolist()))])
    out.append(canon(mg._df_record_state))
    return out


def random_ops(world, op):
    """Does this operation sample, as documented?"""
    if op['op'] in ('draw', 'samp'):
        return True
    noisy = any(isinstance(x.fc, (int, float, dict)) for x in world.mods)      # a noise of 0 is drawn as well
    traj = world.traj is not None and world.traj['kind'] in ('fixed', 'stoch')
    if op['op'] == 'set_fc' and isinstance(op['fc'], (int, float, dict)):
        return True
    if op['op'] == 'read' and any(w in ('sample', 'strict') for w in op['what']):
        return True
    return noisy or (traj and op['op'] in ('reset', 'range', 'run', 'convert', 'restore', 'fault', 'bad', 'badact', 'rbc'))


def history(plan, out, scratch, seed, check_rng, tags=('determinism',)):
    """Carry out the plan; returns everything observable."""
    cfg = dict(plan['cfg'], np_seed=seed)
    w = World(cfg, tags, flavour=plan['flavour'], scratch=scratch, stats=out.stats if out else {}, env_kw=plan['env_kw'])
    extra = []
    for i, op in enumerate(plan['ops']):
        before = np.random.get_state()
        pure = not random_ops(w, op)
        k = op['op']
        if k == 'draw':
            if w.dirty or w.t >= w.T:
                w.do(dict(op='reset'))
                continue
            if w.flavour != 'mg':
                w.mg.action_space.seed((seed + i) % 1000)       # gym's own seam; every conversion and restore makes a new space
            a = w.guard('sample_action', lambda: w.mg.action_space.sample() if w.flavour == 'cenv' else w.mg.sample_action(strict_bound=op['strict']))
            extra.append(canon(a))
            if op['use'] and w.flavour == 'mg':
                o = w.guard('step with a sampled action', lambda: w.mg.run(a))
                extra.append(canon([o[0], o[1], bool(o[2]), o[3]]))
                w.dirty = True             # the model did not follow; a reset comes next
            elif op['use']:
                o = w.guard('step with a sampled action', lambda: w.mg.step(a))
                extra.append(canon([o[0], o[1], bool(o[2]), o[3]]))
                w.dirty = True
        elif k == 'rbc':
            from pymgrid.algos import RuleBasedControl
            if not w.dirty and any(x.ctl for x in w.mods) and sum((2 if x.kind == 'gen' else 1) for x in w.mods if x.ctl) <= 4:
                rbc = w.guard('rule-based control', lambda: RuleBasedControl(w.mg))
                df = w.guard('rule-based control', lambda: rbc.run(3))
                extra.append(canon([[(e.module, e.action) for e in rbc.priority_list], df.values.tolist(), [str(c) for c in df.columns]]))
        elif k == 'scenario':
            from pymgrid import Microgrid
            mg = w.guard('from_scenario', lambda: Microgrid.from_scenario(op['n']))
            extra.append(scenario_print(mg))
            if op['conv']:
                nm = w.guard('to_nonmodular', mg.to_nonmodular)
                extra.append(gen_print(nm))
        elif k == 'lists':
            if w.flavour == 'env':
                extra.append(canon([[(e.module, e.action) for e in pl] for pl in w.mg.actions_list]))
            extra.append(list(map(str, w.guard('log', lambda: w.mg.log).columns)) if not w.dirty else None)
        else:
            w.do(op)
        if check_rng and pure:
            w.expect('determinism', same_rng(before, np.random.get_state()), lambda: 'operation %d (%s) used or reseeded the global random generator although nothing in it is to be sampled' % (i, k))
        extra.append([i, canon(w.prev)])
    return w, dict(events=w.events, extra=extra, log=None if w.dirty else canon(w.guard('log', lambda: w.mg.log).values.tolist()))


def generator(plan):
    from pymgrid import MicrogridGenerator
    g = MicrogridGenerator(nb_microgrid=plan['gen']['n'], random_seed=plan['gen']['seed'])
    g.generate_microgrid(modular=plan['gen']['modular'])
    return [gen_print(m) for m in g.microgrids]


def observe(plan, scratch, seed):
    """What a process that does nothing but this sees (used by the helper process)."""
    res = {}
    if plan.get('gen'):
        res['gen'] = generator(plan)
    try:
        np.random.seed(seed)
        random.seed(seed)
        res['history'] = history(plan, None, scratch, seed, False, ())[1]
    except StopRun:
        res['history'] = 'stopped'
    return res


# ---- helper processes with another hash seed ---------------------------------------------------------------------

_helpers = {}


def helper(hashseed):
    key = (os.getpid(), hashseed)
    p = _helpers.get(key)
    if p is None or p.poll() is not None:
        e = dict(os.environ, PYTHONHASHSEED=str(hashseed), VERIF_HELPER='1')
        p = _helpers[key] = subprocess.Popen([sys.executable, os.path.join(env.VERIF, 'check.py'), '--helper'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                             stderr=subprocess.DEVNULL, env=e, text=True)
    return p


def ask_helper(hashseed, plan, seed):
    p = helper(hashseed)
    p.stdin.write(json.dumps(dict(plan=plan, seed=seed)) + '\n')
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise Violation('crash', 'the process with another hash seed died')
    return json.loads(line)


def serve():
    from .runner import scratch_root
    import shutil
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    env.load()
    for line in sys.stdin:
        d = json.loads(line)
        scratch = scratch_root()
        try:
            with np.errstate(all='ignore'):
                res = dict(ok=json.loads(json.dumps(observe(d['plan'], scratch, d['seed']))))
        except Violation as v:
            res = dict(violation=[v.cls, v.msg])
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        out.write(json.dumps(res) + '\n')
        out.flush()


class C11(WorldProp):
    technique = 'deterministic simulation: every history executed again under other hash seeds, processes, clocks, directory orders and prior use'
    weights = dict(BASE, draw=2.5, rbc=0.6, scenario=0.15, lists=0.6, set_fc=1.0)
    tags = ('determinism',)
    cfg_opts = dict(p_raise=0.0, p_traj=0.5)
    env_kinds = ((1, 'env'),)
    p_env, p_yaml = 0.35, 0.6
    n = (4, 26)
    runs = dict(quick=1200, thorough=15000)
    stub = STUB + ['clock, os.urandom, os.listdir and os.scandir: replaced in the second execution by seeded ones that jump and shuffle']
    assumptions = WorldProp.assumptions + ['random numbers come from the global numpy generator, seeded once per history; the action space of an environment is seeded through gym\'s own interface',
                                           'microgrids are generated right after their generator is constructed']

    def plan(self, r):
        plan = super().plan(r)
        for op in plan['ops']:
            op.pop('rs', None)
            if op['op'] == 'draw':
                op['strict'], op['use'] = r.chance(0.4), r.chance(0.4)
            elif op['op'] == 'scenario':
                op['n'], op['conv'] = r.randint(0, 24), r.chance(0.3)
        plan['surround'] = r.randint(1, 10 ** 9)
        plan['hashseed'] = r.pick((1, 0), (2, 4242), (2, 777))
        plan['gen'] = dict(n=r.randint(1, 2), seed=r.randint(0, 10 ** 6), modular=r.chance(0.7)) if r.chance(0.12) else None
        return plan

    def env_kw(self, r, cfg):
        return dict(flat_spaces=r.chance(0.6))

    def differs(self, a, b, what):
        a, b = json.loads(json.dumps(a)), json.loads(json.dumps(b))
        if a != b:
            for k in a:
                if a[k] != b.get(k):
                    raise Violation('determinism', '%s: %s' % (what, first_difference(a[k], b.get(k), k) if not near(a[k], b.get(k)) else 'in the last digits of ' + k))

    def execute(self, plan, out, scratch):
        seed = plan['cfg']['np_seed']
        dirs = [os.path.join(scratch, str(i)) for i in range(4)]
        for d in dirs:
            os.makedirs(d)
        try:
            w, first = history(plan, out, dirs[0], seed, True)
            end = np.random.get_state()
            out.states |= w.states
            out.sig, out.log, out.nontrivial = digest(w.trace), digest(first), w.steps >= 2
            g = None
            if plan.get('gen'):
                np.random.seed(1)
                g = generator(plan)
                out.stats['generated'] = out.stats.get('generated', 0) + 1
            # again, here, with the clock, directories and entropy perturbed, and after other use of the library
            with Surroundings(plan['surround']):
                np.random.seed(plan['surround'] % 2 ** 32)
                if plan.get('gen'):
                    self.differs(dict(gen=g), dict(gen=generator(plan)), 'generating again with the same seed gives other microgrids')
                self.prior_use(plan, out, dirs[3])
                _, second = history(plan, out, dirs[1], seed, False, ())
            self.differs(first, second, 'the second execution of the same history, with the same seed, differs')
            self.count(out, 'fault:perturbed_surroundings')
            # another seed must lead to another state of the generator, unless something reseeds it
            _, third = history(plan, out, dirs[2], (seed + 1) % 2 ** 32, False, ())
            if same_rng(end, np.random.get_state()):
                raise Violation('determinism', 'the random generator is in the same state after the history whatever it was seeded with')
            # in a process with another hash seed
            res = ask_helper(plan['hashseed'], plan, seed)
            self.count(out, 'fault:other_process_and_hash_seed')
            if 'violation' in res:
                raise Violation(res['violation'][0], 'in a process with hash seed %d: %s' % (plan['hashseed'], res['violation'][1]))
            res = res['ok']
            if res['history'] != 'stopped':
                self.differs(first, res['history'], 'the same history in a process with hash seed %d differs' % plan['hashseed'])
            if g is not None:
                self.differs(dict(gen=g), dict(gen=res['gen']), 'generating in a process with hash seed %d gives other microgrids' % plan['hashseed'])
        except StopRun:
            out.stats['stopped_runs'] = out.stats.get('stopped_runs', 0) + 1

    def count(self, out, k):
        out.stats[k] = out.stats.get(k, 0) + 1

    def prior_use(self, plan, out, scratch):
        """Some other activity of the library in the same process."""
        r = Rng(plan['surround'])
        cfg = gen.gen_config(r, yamlable=True, p_raise=0.0)
        w = World(cfg, (), scratch=scratch, stats={})
        for op in gen.gen_ops(r, dict(run=5, reset=1, set_fc=1, restore=1), {}, 4):
            try:
                w.do(op)
            except (Violation, StopRun):
                break
