"""C10: several microgrids, environments, controllers and modules side by side, interleaved by operation or by source line.

Every participant's history is compared with the one it has when nobody else acts.
"""
import copy
import os
import pickle
import sys
import threading

import numpy as np

from . import gen
from .props import Prop, STUB
from .restore import first_difference, near
from .util import Rng, Violation, canon, digest
from .world import StopRun, World, build, make_module, make_modules, make_traj

SKIP = ('balance', 'other')


def vandalise(o, depth=0):
    """Overwrite results the caller received, as a careless caller might."""
    if isinstance(o, np.ndarray):
        if o.flags.writeable and o.dtype.kind in 'fiu':
            o.fill(777)
    elif isinstance(o, dict):
        for v in list(o.values()):
            vandalise(v, depth + 1)
        o.clear()
    elif isinstance(o, list):
        for v in o:
            vandalise(v, depth + 1)
        o.clear()
    elif isinstance(o, tuple):
        for v in o:
            vandalise(v, depth + 1)
    elif hasattr(o, 'iloc') and hasattr(o, 'values'):
        try:
            o.iloc[:] = 777
        except Exception:
            pass


def module_print(m):
    d = dict(type=type(m).__name__, step=m.current_step, initial=m.initial_step, state=m.state_dict(), act=[m.min_act, m.max_act],
             costs=[m.production_marginal_cost, m.absorption_marginal_cost], log=m.log_dict() if len(m.logger) else {})
    ts = getattr(m, 'time_series', None)
    if ts is not None:
        d['ts'], d['final'], d['H'] = ts, m.final_step, m.forecast_horizon
    return canon(d)


class Actor:
    """Someone who owns a microgrid (or controller, or module) and operates on it."""

    def __init__(self, i, spec):
        self.i, self.spec, self.events, self.alive = i, spec, [], False
        self.vandal = False

    def note(self, *e):
        self.events.append(canon(list(e)))


class WorldActor(Actor):
    def start(self, world):
        self.w, self.alive = world, True

    def do(self, op):
        w = self.w
        n = len(w.events)
        out = w.do(op)
        self.events += w.events[n:]
        self.note('state', op['op'], w.prev if not w.dirty else 'dirty')
        if self.vandal:
            w.count('vandalised')
            vandalise(out)
            if op['op'] in ('run', 'reset', 'range'):
                mg = w.mg
                for f in (mg.state_dict, lambda: mg.state_dict(normalized=True), mg.state_series, lambda: mg.get_log(as_frame=False), mg.get_log, mg.get_cost_info, mg.get_empty_action,
                          lambda: [m.state for m in mg.module_list], lambda: [m.log_dict() for m in mg.module_list], lambda: [m.state_dict() for m in mg.module_list],
                          lambda: mg.modules.to_tuples(), lambda: mg.modules.to_dict(), lambda: mg.modules.get_attrs('current_step')):
                    vandalise_shallow(w.guard('reading', f)) if 'modules' in f.__code__.co_names else vandalise(w.guard('reading', f))
            c = getattr(w, 'last_control', None)
            if c is not None:
                vandalise(c)
                w.last_control = None

    def final(self):
        if not self.w.dirty:
            self.note('log', log_of(self.w.mg))


def vandalise_shallow(o):
    """Containers only: their elements are the modules themselves."""
    if isinstance(o, dict):
        o.clear()
    elif isinstance(o, list):
        o.clear()


def log_of(mg):
    df = mg.log
    return {'/'.join(str(x) for x in (c if isinstance(c, tuple) else (c,))): df[c].tolist() for c in df.columns}, list(df.index)


class RbcActor(Actor):
    def start(self, rbc):
        self.rbc, self.alive = rbc, True

    def do(self, op):
        if op['op'] == 'reset':
            out = self.rbc.reset()
            self.note('reset', {k: v for k, v in out.items() if k not in SKIP} if isinstance(out, dict) else out)
        else:
            out = self.rbc.run(1 + op.get('an', 0) % 4)
            self.note('rbc', [(el.module, el.action) for el in self.rbc.priority_list], log_of(self.rbc.microgrid))
        if self.vandal:
            vandalise(out)

    def final(self):
        self.note('state', self.rbc.microgrid.state_dict())


class ModuleActor(Actor):
    """The caller goes on using a module it built a microgrid from."""

    def start(self, mod):
        self.m, self.alive = mod, True

    def do(self, op):
        m = self.m
        ts = getattr(m, 'time_series', None)
        if op['op'] == 'reset' or (ts is not None and m.current_step >= len(ts)):
            m.reset()
        else:
            a = np.array([1.0, 0.0]) if m.action_space.shape[0] == 2 else 0.0
            out = m.step(a, normalized=False) if m.action_space.shape[0] < 2 else None
            self.note('mstep', out)
        self.note('module', module_print(m))

    def final(self):
        self.note('module', module_print(self.m))


class ScenarioActor(Actor):
    def start(self, mg):
        self.mg, self.alive = mg, True

    def do(self, op):
        if op['op'] == 'reset':
            self.note('reset', self.mg.reset())
        else:
            r = Rng(op['rs'])
            a = self.mg.get_empty_action()
            for name in sorted(a):
                a[name] = [np.array([r.random() for _ in range(m.action_space.shape[0])]) for m in self.mg.modules[name]]
            out = self.mg.run(a)
            self.note('step', out[1], out[3], self.mg.state_dict())
            if self.vandal:
                vandalise(out)
                vandalise(a)

    def final(self):
        self.note('log', log_of(self.mg))


CLASSES = dict(mg=WorldActor, env=WorldActor, rbc=RbcActor, module=ModuleActor, scen=ScenarioActor)


class Stage:
    """One execution: ingredients shared by the participants, and who acts when."""

    def __init__(self, plan, out, scratch, only=None):
        self.plan, self.out, self.scratch, self.only = plan, out, scratch, only
        self.vandal = only is None
        cfg = plan['cfg']
        self.arrays = {}
        self.bytes = {}
        self.mods = self.with_arrays(cfg)
        self.prints = [module_print(m[1] if isinstance(m, tuple) else m) for m in self.mods]
        self.actors = []
        for i, spec in enumerate(plan['actors']):
            a = CLASSES[spec['kind']](i, spec)
            a.vandal = self.vandal and spec.get('vandal', False)
            self.actors.append(a)

    def with_arrays(self, cfg):
        """Modules of the configuration, their data being arrays the caller keeps."""
        mods, mine = [], {}
        scribble = self.plan.get('scribble')
        arrays = {} if scribble else self.arrays
        for i, m in enumerate(cfg['mods']):
            m = dict(m)
            key = 'ts' if 'ts' in m else 'series' if 'series' in m else None
            if key:
                if i not in arrays:
                    arr = np.array(m[key]) * (-1.0 if m.get('neg') else 1.0)
                    mine[i] = arr.tobytes()
                    if not scribble:
                        self.bytes[i] = mine[i]
                    arrays[i] = arr
                m[key] = Raw(arrays[i])
            mod = make_module(m, cfg, arr=lambda v: v.arr)
            mods.append((m['name'], mod) if m['name'] else mod)
        for i in mine:
            if arrays[i].tobytes() != mine[i]:
                raise Violation('isolate', 'the array the caller passed for module %s was modified in construction' % i)
            if scribble and self.vandal:            # the caller uses its array for something else
                arrays[i] += 777
        extra = make_modules(dict(cfg, mods=[]))
        return mods + extra

    def world(self, i, flavour, modules, cfg=None):
        cfg = cfg or self.plan['cfg']
        np.random.seed(cfg['np_seed'])
        kw = {} if flavour == 'mg' else dict(flat_spaces=self.plan['flat'])
        mg = build(cfg, flavour, modules=modules, **kw)
        return World(cfg, ('isolate',), flavour=flavour, scratch=self.scratch, stats=self.out.stats, env_kw=kw, mg=mg)

    def start(self, i):
        spec = self.plan['actors'][i]
        a = self.actors[i]
        how = spec.get('from', 'own')
        if a.alive or how == 'spawn':
            return
        if spec['kind'] == 'scen':
            from pymgrid import Microgrid
            return a.start(Microgrid.from_scenario(spec['n']))
        if spec['kind'] == 'module':
            m = self.mods[spec['n'] % len(self.mods)]
            return a.start(m[1] if isinstance(m, tuple) else m)
        fl = spec['kind']
        if how == 'shared':
            mods = self.mods
        elif how == 'arrays':
            mods = self.with_arrays(self.plan['cfg'])
        elif how == 'other':
            return a.start(self.world(i, fl, None, self.plan['cfg_b']))
        else:
            mods = None
        a.start(self.world(i, fl, mods))

    def start_all(self):
        if any(s['kind'] == 'module' for s in self.plan['actors']):     # the others take the modules as they were
            for i in range(len(self.actors)):
                self.start(i)

    def spawn(self, parent, op):
        """A new participant derived from a living one."""
        from pymgrid.algos import RuleBasedControl
        from pymgrid.envs import DiscreteMicrogridEnv
        c = self.actors[op['child']]
        p = self.actors[parent]
        if c.alive or not p.alive or not isinstance(p, WorldActor) or p.w.dirty:
            return
        w = p.w
        how = op['how']
        w.count('spawn:' + how)
        if isinstance(c, RbcActor):
            return c.start(RuleBasedControl(w.mg))
        if how == 'env':
            child = w.clone(DiscreteMicrogridEnv.from_microgrid(w.mg, flat_spaces=self.plan['flat']))
            child.flavour, child.env_kw = 'env', dict(flat_spaces=self.plan['flat'])
        elif how == 'mods':
            child = w.clone(None)
            from pymgrid import Microgrid
            child.mg = Microgrid(w.mg.modules.to_tuples(), add_unbalanced_module=False, reward_shaping_func=w.mg.reward_shaping_func)
            child.flavour, child.rows = 'mg', []
            child.traj, child.i0, child.f, child.a, child.b = None, w.a, w.b, w.a, w.b
            child.op_reset({})             # a log is kept from the start of an episode
        else:
            child = w.clone(w.checkpoint(w.mg, how, 'c%d' % op['child']))
        child.events = []
        c.start(child)

    def act(self, k, op):
        i = op['who']
        a = self.actors[i]
        np.random.seed((op.get('rs') or k) % 2 ** 32)
        if self.only is not None and k not in self.only:
            return
        if op['op'] == 'spawn':
            return self.spawn(i, op)
        self.start(i)
        np.random.seed((op.get('rs') or k) % 2 ** 32)
        if a.alive:
            a.do(op)

    def close(self):
        for a in self.actors:
            if a.alive:
                a.final()

    def caller_data(self):
        for k, v in self.arrays.items():
            if v.tobytes() != self.bytes[k]:
                raise Violation('isolate', 'the array the caller passed for module %s was modified' % (k,))
        if not any(s['kind'] == 'module' for s in self.plan['actors']):
            for m, p in zip(self.mods, self.prints):
                q = module_print(m[1] if isinstance(m, tuple) else m)
                if p != q:
                    raise Violation('isolate', 'a module the caller built microgrids from was modified: %s' % first_difference(p, q))


class Raw:
    def __init__(self, arr):
        self.arr = arr



def needed(plan, i):
    """The operations without which participant i would not have its history: its own and, before its birth, its ancestors'."""
    ops = plan['ops']
    birth = {}
    for k, op in enumerate(ops):
        if op['op'] == 'spawn' and op['child'] not in birth:
            birth[op['child']] = (k, op['who'])
    out = set()
    who, end = i, len(ops)
    while True:
        start = -1
        if plan['actors'][who].get('from') == 'spawn':
            if who not in birth or birth[who][0] >= end:
                return out
            start = birth[who][0]
            out.add(start)
        out |= {k for k in range(start + 1, end) if ops[k]['who'] == who and ops[k]['op'] != 'spawn'}
        if start < 0:
            return out
        who, end = birth[who][1], start


# ---- threads ---------------------------------------------------------------------------------------------------

class Baton:
    """Lets exactly one thread run; hands over after the planned number of executed source lines of the library."""

    def __init__(self, n, sched, prefix):
        self.cond = threading.Condition()
        self.n, self.sched, self.prefix = n, [list(x) for x in sched], prefix
        self.turn = 0
        self.done = [False] * n
        self.ticks = self.total = self.switches = 0
        self.left = self.sched[0][0] if self.sched else None
        self.where = []
        self.progress = 0
        self.code = {}

    def pick(self, want):
        alive = [i for i in range(self.n) if not self.done[i]]
        if not alive:
            return None
        return alive[want % len(alive)]

    def wait_turn(self, i):
        with self.cond:
            seen = self.progress
            while self.turn != i:
                if not self.cond.wait(2.0):
                    if self.progress == seen and self.turn is not None:
                        # whoever has the baton is blocked (on a lock a parked thread holds): go on without it
                        self.turn = i
                        self.switches += 1
                        self.cond.notify_all()
                        break
                    seen = self.progress

    def point(self, i, frame):
        if self.turn != i:                 # lost the baton while blocked
            self.wait_turn(i)
        self.progress += 1
        self.total += 1
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        gap, to = self.sched.pop(0)
        self.left = self.sched[0][0] if self.sched else None
        nxt = self.pick(to)
        if nxt is None or nxt == i:
            return
        self.switches += 1
        self.where.append((i, nxt, '%s:%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name, frame.f_lineno)))
        with self.cond:
            self.turn = nxt
            self.cond.notify_all()
        self.wait_turn(i)

    def finish(self, i):
        with self.cond:
            self.done[i] = True
            self.progress += 1
            nxt = self.pick(0)
            if self.turn == i:
                self.turn = nxt
            self.cond.notify_all()

    def tracer(self, i):
        def local(frame, event, arg):
            if event == 'line':
                self.point(i, frame)
            return local

        def glob(frame, event, arg):
            code = frame.f_code
            ok = self.code.get(code)
            if ok is None:
                ok = self.code[code] = code.co_filename.startswith(self.prefix) and code.co_name != '<module>'
            if not ok:
                return None
            return local
        return glob


def run_threads(bodies, sched, prefix):
    b = Baton(len(bodies), sched, prefix)
    errors = [None] * len(bodies)

    def main(i):
        b.wait_turn(i)
        sys.settrace(b.tracer(i))
        try:
            bodies[i]()
        except BaseException as e:
            errors[i] = e
        finally:
            sys.settrace(None)
            b.finish(i)
    ts = [threading.Thread(target=main, args=(i,), daemon=True) for i in range(len(bodies))]
    for t in ts:
        t.start()
    for t in ts:
        while t.is_alive():
            t.join(0.5)
    return b, errors


class C10(Prop):
    technique = 'deterministic simulation: seeded interleaving of several instances by operation and of threads by source line, compared with each run alone'
    lists = ['ops', 'sched']
    runs = dict(quick=700, thorough=15000)
    stub = STUB + ['thread scheduling: threads run one at a time and switch only where the plan says, at executed lines of the library']
    rule = ('a run is one configuration, one set of participants with shared ingredients and one interleaving of their operations (or, with threads, of their '
            'source lines), drawn from one seed; non-trivial if at least two participants acted; two runs are the same if participants, operations and switch points are')

    def plan(self, r):
        threads = r.chance(0.4)
        o = dict(yamlable=r.chance(0.7), env=True, det_fc=True, p_raise=0.0, p_traj=0.3)
        cfg = gen.gen_config(r, **o)
        cfg_b = gen.gen_config(r, **o)
        for c in (cfg, cfg_b):             # a trajectory function with a state of its own is the caller's to share or not
            if c['traj'] and c['traj']['kind'] == 'table':
                c['traj'] = None
        if threads:                        # the global random generator is shared by threads: nothing random then
            for c in (cfg, cfg_b):
                if c['traj'] and c['traj']['kind'] in ('fixed', 'stoch'):
                    c['traj'] = None
        actors = []
        for _ in range(r.randint(2, 3) if threads else r.randint(2, 4)):
            k = r.pick((4, 'mg'), (3, 'env'), (0 if threads or any(a['kind'] == 'module' for a in actors) else 1, 'module'), (0.3, 'scen'))
            s = dict(kind=k, vandal=r.chance(0.5))
            if k in ('mg', 'env'):
                s['from'] = r.pick((3, 'shared'), (2, 'arrays'), (1, 'own'), (1, 'other'))
            else:
                s['from'], s['n'] = 'own', r.randint(0, 24)
            actors.append(s)
        if not any(a['kind'] in ('mg', 'env') for a in actors):
            actors[0] = dict(kind='mg', vandal=True)
            actors[0]['from'] = 'shared'
        base = len(actors)
        weights = dict(run=14, reset=2, range=0.4, set_fc=0.8, log=0.4, restore=0.7, read=0.5)
        oo = dict(o)
        ops = []
        if not threads:
            for _ in range(r.randint(0, 3)):
                actors.append(dict(kind=r.pick((2, 'mg'), (1, 'rbc')), vandal=r.chance(0.5)))
                actors[-1]['from'] = 'spawn'
        else:
            for _ in range(r.randint(0, 1)):
                actors.append(dict(kind='rbc', vandal=False))
                actors[-1]['from'] = 'private'
        n = r.randint(6, 40) if not threads else r.randint(4, 16)
        for op in gen.gen_ops(r, weights, oo, n):
            op['who'] = r.randint(0, len(actors) - 1)
            if op['op'] == 'read':
                op['what'] = [x for x in op['what'] if x not in ('sample', 'strict')] or ['log']
            ops.append(op)
        for c in range(base, len(actors)):
            if actors[c]['from'] != 'spawn':
                continue
            cand = [i for i in range(c) if actors[i]['kind'] in ('mg', 'env')]
            how = r.pick((2, 'copy'), (2, 'str'), (1, 'file'), (1, 'pickle'), (2, 'env'), (1, 'mods'))
            ops.insert(r.randint(0, len(ops) // 2), dict(op='spawn', who=r.choice(cand), child=c, how=how))
        plan = dict(cfg=cfg, cfg_b=cfg_b, actors=actors, ops=ops, flat=r.chance(0.5), scribble=r.chance(0.4), threads=threads, sched=[])
        if threads:
            k = r.pick((1, 2), (2, 6), (2, 30), (1, 120))
            g = r.pick((1, 3), (1, 30), (2, 300), (2, 2000))
            plan['sched'] = [[1 + int(r.expovariate(1.0 / g)), r.randint(0, 7)] for _ in range(k)]
        return plan

    def execute(self, plan, out, scratch):
        try:
            if plan['threads']:
                self.threads(plan, out, scratch)
            else:
                self.interleave(plan, out, scratch)
        except StopRun:
            out.stats['stopped_runs'] = out.stats.get('stopped_runs', 0) + 1

    def guard(self, fn, what):
        try:
            return fn()
        except (Violation, StopRun):
            raise
        except Exception as e:
            raise Violation('exception', '%s failed with %s: %s' % (what, type(e).__name__, str(e)[:200]))

    def alone(self, plan, i, out, scratch):
        st = Stage(plan, out, os.path.join(scratch), only=needed(plan, i))
        st.start_all()
        for k, op in enumerate(plan['ops']):
            st.act(k, op)
        if st.actors[i].alive:
            st.actors[i].final()
        return st.actors[i]

    def compare(self, i, spec, want, got):
        for n, (x, y) in enumerate(zip(want, got)):
            if x != y:
                raise Violation('isolate', 'participant %d (%s, %s) shows something else at its result %d than when nobody else acts: %s' % (
                    i, spec['kind'], spec.get('from'), n, first_difference(y, x) if not near(x, y) else 'in the last digits'))
        if len(want) != len(got):
            raise Violation('isolate', 'participant %d (%s, %s) has %d results, %d when nobody else acts' % (i, spec['kind'], spec.get('from'), len(got), len(want)))

    def interleave(self, plan, out, scratch):
        dirs = [os.path.join(scratch, d) for d in ('all', 'one')]
        for d in dirs:
            os.makedirs(d)
        st = Stage(plan, out, dirs[0])
        self.guard(st.start_all, 'construction')
        for k, op in enumerate(plan['ops']):
            self.guard(lambda: st.act(k, op), 'operation %d (%s of participant %d)' % (k, op['op'], op['who']))
        self.guard(st.close, 'reading at the end')
        st.caller_data()
        acted = 0
        for i, a in enumerate(st.actors):
            if not a.alive:
                continue
            acted += 1
            b = self.guard(lambda: self.alone(plan, i, out, dirs[1]), 'participant %d alone' % i)
            self.compare(i, plan['actors'][i], b.events, a.events)
            out.stats['histories_compared'] = out.stats.get('histories_compared', 0) + 1
        out.sig = digest([[op['op'], op['who'], op.get('how')] for op in plan['ops']] + [plan['actors']])
        out.log = digest([a.events for a in st.actors])
        out.nontrivial = acted >= 2
        out.stats['sched:operation_interleavings'] = 1
        for a in st.actors:
            if isinstance(a, WorldActor) and a.alive:
                out.states |= a.w.states

    # each thread builds its own participant from the shared ingredients and operates on it
    def body(self, st, i, plan):
        spec = plan['actors'][i]
        ops = [op for op in plan['ops'] if op['who'] == i and op['op'] != 'spawn']

        def go():
            if spec['kind'] == 'rbc':
                from pymgrid.algos import RuleBasedControl
                w = st.world(i, 'mg', st.mods)
                st.actors[i].start(RuleBasedControl(w.mg))
            else:
                st.start(i)
            for op in ops:
                st.actors[i].do(op)
            st.actors[i].final()
        return go

    def threads(self, plan, out, scratch):
        import pymgrid
        prefix = os.path.dirname(os.path.abspath(pymgrid.__file__))
        n = len(plan['actors'])
        want = []
        for i in range(n):
            d = os.path.join(scratch, 'one%d' % i)
            os.makedirs(d)
            st = Stage(plan, out, d)
            self.guard(self.body(st, i, plan), 'participant %d alone' % i)
            want.append(st.actors[i].events)
        d = os.path.join(scratch, 'all')
        os.makedirs(d)
        st = Stage(plan, out, d)
        bodies = []
        for i in range(n):
            sub = os.path.join(d, str(i))
            os.makedirs(sub)
            bodies.append(self.body(PerThread(st, sub), i, plan))
        b, errors = run_threads(bodies, plan['sched'], prefix)
        out.stats['sched:thread_interleavings'] = 1
        out.stats['sched:context_switches'] = b.switches
        out.stats['sched:library_lines_executed'] = b.total
        out.stats['fault:preemption'] = b.switches
        for i, e in enumerate(errors):
            if e is not None:
                if isinstance(e, (StopRun,)):
                    raise e
                if isinstance(e, Violation):
                    raise Violation(e.cls, 'with other threads running, participant %d: %s' % (i, e.msg))
                raise Violation('isolate', 'with other threads running, participant %d (%s) fails with %s: %s; switches: %s' % (
                    i, plan['actors'][i]['kind'], type(e).__name__, str(e)[:200], b.where[-4:]))
        for i in range(n):
            self.compare(i, plan['actors'][i], want[i], st.actors[i].events)
            out.stats['histories_compared'] = out.stats.get('histories_compared', 0) + 1
        st.caller_data()
        out.sig = digest([b.where, plan['actors']])
        out.log = digest([a.events for a in st.actors] + b.where)
        out.nontrivial = b.switches >= 1
        for a in st.actors:
            if isinstance(a, WorldActor) and a.alive:
                out.states |= a.w.states


class PerThread:
    """The shared stage, with a scratch directory per thread."""

    def __init__(self, st, scratch):
        self.st, self.scratch = st, scratch

    def __getattr__(self, k):
        return getattr(self.__dict__['st'], k)

    def world(self, *a, **k):
        w = self.st.world(*a, **k)
        w.scratch = self.scratch
        return w

    def start(self, i):
        self.st.start(i)
        a = self.st.actors[i]
        if isinstance(a, WorldActor) and a.alive:
            a.w.scratch = self.scratch
