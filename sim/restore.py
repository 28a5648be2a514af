"""C08: checkpoints taken anywhere in a history, restored at once or later, driven on beside the uninterrupted original."""
import copy
import os
import pickle
import shutil

import numpy as np

from . import gen
from .props import BASE, WorldProp, settle
from .util import Violation, canon, digest
from .world import COMPONENTS, StopRun, World, build

ATTRS = dict(
    load=['raise_errors'], ren=['raise_errors'],
    grid=['max_import', 'max_export', 'cost_per_unit_co2', 'raise_errors'],
    bat=['min_capacity', 'max_capacity', 'max_charge', 'max_discharge', 'efficiency', 'battery_cost_cycle', 'raise_errors', 'init_charge', 'init_soc'],
    gen=['running_min_production', 'running_max_production', 'co2_per_unit', 'cost_per_unit_co2', 'start_up_time', 'wind_down_time', 'init_start_up',
         'allow_abortion', 'raise_errors'],
    unb=['loss_load_cost', 'overgeneration_cost', 'raise_errors'])


def other_data(cfg):
    """A microgrid of the same make with other data."""
    cfg = copy.deepcopy(cfg)
    for m in cfg['mods']:
        if 'series' in m:
            m['series'] = [v * 1.5 + 1 for v in m['series']] + [2.0]
        if 'ts' in m:
            m['ts'] = [[row[0] * 1.5 + 0.25] + list(row[1:]) for row in m['ts']] + [list(m['ts'][-1])]
    return dict(cfg, T=cfg['T'] + 1, traj=None)


def near(a, b, tol=1e-9):
    if a == b:
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(near(a[k], b[k], 0.0 if k == 'ts' else tol) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(near(x, y, tol) for x, y in zip(a, b))
    try:
        x, y = float.fromhex(a), float.fromhex(b)
    except (TypeError, ValueError):
        return False
    return abs(x - y) <= tol * max(1.0, abs(x), abs(y))


def first_difference(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return '%s/%s only on one side' % (path, k)
            if not near(a[k], b[k], 0.0 if k == 'ts' else 1e-9):
                return first_difference(a[k], b[k], '%s/%s' % (path, k))
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s: %d values vs %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if not near(x, y, 0.0 if '/ts' in path else 1e-9):
                return first_difference(x, y, '%s/%d' % (path, i))
    try:
        return '%s: %r vs %r' % (path, float.fromhex(a), float.fromhex(b))
    except (TypeError, ValueError):
        return '%s: %s vs %s' % (path, str(a)[:120], str(b)[:120])


def log_by_name(mg):
    df = mg.log
    out = {}
    for c in df.columns:
        out['/'.join(str(x) for x in (c if isinstance(c, tuple) else (c,)))] = df[c].tolist()
    return dict(index=list(df.index), columns=out)


def noisy(x):
    return x.kind in COMPONENTS and isinstance(x.fc, (int, float)) and x.fc != 0


def without_draws(w, d, log=False):
    """A state (or the columns of a log) without the forecasts that are drawn at random, and drawn afresh by a restored microgrid."""
    drawn = {x.key for x in w.mods if noisy(x)}
    if log:
        past = getattr(w, 'was_noisy', set()) | drawn
        return {k: v for k, v in d.items() if not ('_forecast_' in k and tuple(k.split('/')[:2]) in {(n, str(i)) for n, i in past})}
    return {n: [{k: v for k, v in e.items() if not ('_forecast_' in k and (n, i) in drawn)} for i, e in enumerate(l)] for n, l in d.items()}


def module_prints(w, mg):
    return {'%s/%d' % x.key: module_print(x, w.module(x, mg)) for x in w.mods}


def module_print(x, m):
    e = {a: getattr(m, a) for a in ATTRS[x.kind]}
    e['type'] = type(m).__name__
    e['steps'] = [m.initial_step, m.current_step]
    e['obs_space'] = [m.observation_space.unnormalized.low, m.observation_space.unnormalized.high]
    e['act_space'] = [m.action_space.unnormalized.low, m.action_space.unnormalized.high]
    if x.kind in COMPONENTS:
        e['noise'] = [getattr(m, 'forecaster_increase_uncertainty'), getattr(m, 'forecaster_relative_noise')]
        if noisy(x):
            e['noise'].append(m.forecaster.noise_std)
        e['ts'], e['final'], e['H'], e['fc'] = m.time_series, m.final_step, m.forecast_horizon, type(m.forecaster).__name__
    e['costs'] = [m.production_marginal_cost, m.absorption_marginal_cost]
    return e


def over(x, m):
    return x.kind in COMPONENTS and m.current_step >= len(m.time_series)


def module_full(w, x, m):
    """Everything observable about a module on its own."""
    e = module_print(x, m)
    e['name'] = list(m.name)
    e['state'] = {k: v for k, v in m.state_dict().items() if not ('_forecast_' in k and noisy(x))}
    past = getattr(w, 'was_noisy', set()) | {y.key for y in w.mods if noisy(y)}
    e['log'] = {k: list(v) for k, v in m.log_dict().items() if not ('_forecast_' in k and x.key in past)}
    if not over(x, m):
        e['limits'] = [m.max_production if m.is_source else None, m.max_consumption if m.is_sink else None]
    return canon(e)


def module_step(w, x, m, share):
    """One step of a module on its own, at a share of what it can do."""
    if x.kind == 'gen':
        a = np.array([1.0, share * x.m['rmax']])
    elif x.kind in ('load',):
        a = 0.0
    elif x.kind == 'unb':
        a = 3.0 * (share - 0.5)
    else:
        a = share * m.max_production if share > 0.3 or not m.is_sink else -share * m.max_consumption
    obs, reward, done, info = m.step(a, normalized=False)
    return canon(dict(obs=None if noisy(x) else obs, reward=reward, done=done, info=info))


def snapshot(w, mg=None, log=True):
    """Everything observable about a microgrid: configuration, state, log, spaces."""
    mg = w.mg if mg is None else mg
    d = dict(state=without_draws(w, mg.state_dict()), steps=[mg.initial_step, mg.final_step, mg.current_step], n=mg.n_modules, len=len(mg),
             traj=repr(mg.trajectory_func) if not callable(getattr(mg.trajectory_func, 'table', None)) else None,
             shaper=type(mg.reward_shaping_func).__name__, cls=type(mg).__name__)
    if hasattr(mg.trajectory_func, 'table'):
        d['traj'] = [mg.trajectory_func.table, mg.trajectory_func.k]
    d['modules'] = module_prints(w, mg)
    if log:
        d['log'] = log_by_name(mg)
        d['log']['columns'] = without_draws(w, d['log']['columns'], log=True)
    if w.flavour == 'env':
        d['env'] = [mg.action_space.n, [[(el.module, el.module_actions, el.action) for el in pl] for pl in mg.actions_list], str(mg.observation_space),
                    mg.flat_spaces, list(mg.observation_keys or [])]
    return canon(d)


class C08(WorldProp):
    technique = 'deterministic simulation: crash and restore from a checkpoint at any point, compared with an uninterrupted twin'
    tags = ()
    weights = dict(run=14, reset=2, range=0.5, set_fc=0.5, set_h=0.4, set_ts=0.3, set_chg=0.3, ck=3, rmact=0.5)
    cfg_opts = dict(p_raise=0.0, p_traj=0.45)
    env_kinds = ((1, 'env'),)
    p_env = 0.35
    p_yaml = 0.75
    n = (4, 30)
    runs = dict(quick=1800, thorough=30000)

    def plan(self, r):
        plan = super().plan(r)
        for op in plan['ops']:
            if op['op'] == 'ck':
                op['how'] = r.pick((3, 'str'), (4, 'file'), (2, 'pickle'), (2, 'copy'))
                op['file'] = r.pick((2, 'a'), (1, 'b'), (1, 'a.b'), (1, 'sub/a'), (1, 'a-1'), (1, 'a-2'))
                op['when'] = r.pick((1, 'now'), (1, 'late'))
                op['chain'] = r.chance(0.35)
                op['rel'], op['move'] = r.chance(0.3), r.chance(0.3)
                op['over'] = r.chance(0.3)
                op['alone'] = r.chance(0.5)
                op['share'] = r.choice([0.0, 0.2, 0.5, 1.0])
        if not any(op['op'] == 'ck' for op in plan['ops']):
            plan['ops'].insert(r.randint(0, len(plan['ops'])), dict(op='ck', how=r.choice(['str', 'file', 'file', 'pickle', 'copy']), file='a', when='now', chain=False, rs=1))
        return plan

    def env_kw(self, r, cfg):
        kw = dict(flat_spaces=r.chance(0.6), remove_redundant_gensets=r.chance(0.6))
        if r.chance(0.3):
            kw['observation_keys'] = ['load_current'] if any(m['kind'] == 'load' for m in cfg['mods']) else None
        return kw

    def drive(self, w, ops, on_ck):
        """Returns the events of each operation, one list entry per operation."""
        out = []
        for i, op in ops:
            if op['op'] == 'ck':
                on_ck(i, op, w)
                out.append(None)
                continue
            n = len(w.events)
            w.do(op)
            w.was_noisy = getattr(w, 'was_noisy', set()) | {x.key for x in w.mods if noisy(x)}
            if op['op'] in ('set_fc', 'set_h', 'set_ts', 'set_chg'):
                w.events.append(['state', canon(without_draws(w, w.prev))])
            out.append(w.events[n:])
        return out

    def save(self, w, op, scratch, tag):
        """Takes a checkpoint now; returns a function that restores it."""
        mg, how = w.mg, w.usable(op['how'])
        w.count('ck:' + how)
        if how == 'copy':
            c = w.guard('deepcopy', lambda: copy.deepcopy(mg))
            return lambda: c
        if how == 'pickle':
            b = w.guard('pickling', lambda: pickle.dumps(mg))
            return lambda: w.guard('unpickling', lambda: pickle.loads(b))
        if how == 'str':
            s = w.guard('dump()', mg.dump)
            return lambda: w.guard('load(string)', lambda: type(mg).load(s))
        path = os.path.join(scratch, tag, op['file'] + '.yaml')
        os.makedirs(os.path.dirname(path), exist_ok=True)

        top = os.path.join(scratch, tag)
        if op.get('over'):                # a checkpoint of another microgrid has been there before
            other = w.guard('building', lambda: build(other_data(w.cfg), modules=None))
            w.count('ck:overwrites_another')

            def clobber():
                with open(path, 'w') as f:
                    other.dump(f)
            w.guard('dump(file)', clobber)

        def dump():
            if op.get('rel'):             # by a relative name
                os.chdir(top)
                with open(op['file'] + '.yaml', 'w') as f:
                    mg.dump(f)
                os.chdir('/')
            else:
                with open(path, 'w') as f:
                    mg.dump(f)

        def load():
            if not op.get('move'):
                with open(path) as f:
                    return type(mg).load(f)
            # the checkpoint directory was copied elsewhere and is no longer at its old place
            away, hidden = top + '.moved', top + '.hidden'
            shutil.rmtree(away, ignore_errors=True)
            shutil.copytree(top, away)
            os.rename(top, hidden)
            try:
                with open(os.path.join(away, op['file'] + '.yaml')) as f:
                    return type(mg).load(f)
            finally:
                os.rename(hidden, top)
        w.guard('dump(file)', dump)
        return lambda: w.guard('load(file)', load)

    def alone(self, w, op, scratch, i):
        """Every module saved and restored on its own."""
        if w.usable(op['how']) not in ('str', 'file'):
            return
        for n, x in enumerate(w.mods):
            m = w.module(x)

            def again():
                if w.usable(op['how']) == 'str':
                    return type(m).load(m.dump())
                path = os.path.join(scratch, 'alone', '%d.yaml' % n)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, 'w') as f:
                    m.dump(f)
                with open(path) as f:
                    return type(m).load(f)
            c = w.guard('saving and restoring module %s/%d' % x.key, again)
            w.count('ck:module')
            what = 'module %s/%d, restored on its own before operation %d,' % (x.name, x.idx, i)
            want = w.guard('reading', lambda: module_full(w, x, m))
            self.compare(want, w.guard('reading', lambda: module_full(w, x, c)), what + ' differs')
            if over(x, m):
                continue
            twin = w.guard('deepcopy', lambda: copy.deepcopy(m))
            np.random.seed(op.get('rs', 1) % 2 ** 32)
            want = w.guard('stepping a module', lambda: module_step(w, x, twin, op['share']))
            np.random.seed(op.get('rs', 1) % 2 ** 32)
            got = w.guard('stepping a restored module', lambda: module_step(w, x, c, op['share']))
            self.compare(want, got, what + ' goes on differently')
            self.compare(w.guard('reading', lambda: module_full(w, x, twin)), w.guard('reading', lambda: module_full(w, x, c)), what + ' ends up different')

    def execute(self, plan, out, scratch):
        ops = list(enumerate(plan['ops']))
        try:
            snaps = {}
            a = self.world(plan, out, scratch)

            def note(i, op, w):
                snaps[i] = w.guard('reading', lambda: snapshot(w))
            expected = self.drive(a, ops, note)
            final = a.guard('reading', lambda: snapshot(a))

            # the original that is saved from
            b = self.world(plan, out, scratch)
            pending = []

            def take(i, op, w):
                if op.get('alone'):
                    self.alone(w, op, scratch, i)
                restore = self.save(w, op, scratch, 'ck')
                if op['when'] == 'now':
                    self.compare(snaps[i], w.guard('reading', lambda: snapshot(w)), 'taking a checkpoint (%s) before operation %d changed the original' % (op['how'], i))
                # a file that is written again replaces the older checkpoint
                if w.usable(op['how']) == 'file':
                    pending[:] = [p for p in pending if not (p[3] == 'file' and p[1]['file'] == op['file'])]
                model = w.clone(None)
                mg = restore() if op['when'] == 'now' else None
                pending.append((i, op, model, w.usable(op['how']), mg, restore))
            got = self.drive(b, ops, take)
            self.compare_events(expected, got, 'the original, from which checkpoints were taken, differs from one never saved')
            self.compare(final, b.guard('reading', lambda: snapshot(b)), 'the original, from which checkpoints were taken, ends up different from one never saved')

            for i, op, model, how, mg, restore in pending:
                mg = mg if mg is not None else restore()
                w = model.clone(mg)
                for k in ('restores:' + how, 'fault:crash_and_restore:' + how):
                    out.stats[k] = out.stats.get(k, 0) + 1
                self.compare(snaps[i], w.guard('reading', lambda: snapshot(w)), 'restored checkpoint (%s, taken before operation %d, restored %s) differs' % (how, i, op['when']))

                def chain(j, op2, ww):
                    if op['chain']:
                        ww.mg = self.save(ww, op2, scratch, 'chain%d' % i)()
                        ww.count('restores:chained')
                got = self.drive(w, ops[i + 1:], chain)
                self.compare_events(expected[i + 1:], got, 'restored checkpoint (%s, taken before operation %d, restored %s) goes on differently' % (how, i, op['when']), i + 1)
                self.compare(final, w.guard('reading', lambda: snapshot(w)), 'restored checkpoint (%s, taken before operation %d) ends up different' % (how, i))
            out.nontrivial = bool(pending) and a.steps >= 2
            settle(a, out, ())
        except StopRun:
            out.stats['stopped_runs'] = out.stats.get('stopped_runs', 0) + 1

    def compare(self, want, got, what):
        if not near(want, got):
            raise Violation('restore', '%s: %s' % (what, first_difference(want, got)))

    def compare_events(self, want, got, what, base=0):
        for i, (x, y) in enumerate(zip(want, got)):
            if x is not None and not near(x, y):
                raise Violation('restore', '%s at operation %d: %s' % (what, base + i, first_difference(x, y)))
