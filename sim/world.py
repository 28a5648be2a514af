"""One simulated microgrid: the real library driven through its public API, with a one-step reference model beside it.

The model predicts what each operation must do from the state the library itself reported before it, so a single wrong
step is reported once and where it happens. Every expectation carries a tag (one per property); a check reports only its
own tags, and exceptions nobody asked for under every property.
"""
import copy
import io
import math
import os
import pickle
import traceback

import numpy as np

from . import callbacks as cb
from .callbacks import SWITCH
from .util import Rng, Violation, canon, close

DEFAULT_NAME = dict(load='load', ren='renewable', grid='grid', bat='battery', gen='genset')
COMPONENTS = dict(load=['load'], ren=['renewable'], grid=['import_price', 'export_price', 'co2_per_kwh', 'grid_status'])
CONTROLLABLE = ('bat', 'grid', 'gen')
TOL = 1e-9


class StopRun(Exception):
    """The run cannot usefully go on (mismatch that belongs to another property)."""


# ---- building ----------------------------------------------------------------------------------------------------

def make_fc(spec):
    if isinstance(spec, dict):
        kw = dict(c=spec.get('c', 0.0), g=spec.get('g', 0.0))
        return cb.ScalarForecast(spec['k'], **kw) if spec['scalar'] else cb.Forecast(spec['k'], spec.get('inplace', False), spec.get('form', 'array'), **kw)
    return spec


def array_like(form):
    if form == 'list':
        return list
    if form == 'col':
        return lambda v: np.array(v).reshape(-1, 1)
    if form == 'series':
        import pandas as pd
        return lambda v: pd.Series(v, index=range(3, 3 + len(v)))
    if form == 'frame':
        import pandas as pd
        return pd.DataFrame
    return np.array


DEFAULTS = dict(forecaster=None, forecast_horizon=23, initial_step=0, final_step=-1, cost_per_unit_co2=0, raise_errors=False, battery_cost_cycle=0, battery_transition_model=None,
                init_charge=None, init_soc=None, co2_per_unit=0, start_up_time=0, wind_down_time=0, init_start_up=True, loss_load_cost=10, overgeneration_cost=2,
                add_unbalanced_module=True, reward_shaping_func=None, trajectory_func=None, flat_spaces=True, remove_redundant_gensets=True)      # as documented


def plain(cls, cfg, *a, **kw):
    """cls(**kw), with what equals the documented default left to the library."""
    if cfg.get('omit'):
        kw = {k: v for k, v in kw.items() if k not in DEFAULTS or type(v) not in (bool, type(None), int, float) or v != DEFAULTS[k]}
    return cls(*a, **kw)


def make_module(m, cfg, arr=None):
    from pymgrid import modules as M
    k = m['kind']
    arr = arr or array_like(m.get('form'))
    if k in ('load', 'ren', 'grid'):
        kw = dict(forecaster=make_fc(m['fc']), initial_step=cfg['i0'], final_step=cfg['f0'])
        if m['H']:
            kw['forecast_horizon'] = m['H']
        if m.get('inc'):
            kw['forecaster_increase_uncertainty'] = True
        if m.get('rel'):
            kw['forecaster_relative_noise'] = True
        if k == 'load':
            s = m['series']
            return plain(M.LoadModule, cfg, arr([-v for v in s]) if m['neg'] and isinstance(s, list) else arr(s), **kw)
        if k == 'ren':
            s = m['series']
            return plain(M.RenewableModule, cfg, arr([-v for v in s]) if m['neg'] and isinstance(s, list) else arr(s), **kw)
        g = plain(M.GridModule, cfg, max_import=m['imp'], max_export=m['exp'], time_series=arr(m['ts']),
                  cost_per_unit_co2=m['co2c'], raise_errors=m['rais'], **kw)
        if m.get('flex') is not None:       # True: deployed as needed; False: was, and is asked again
            g.as_flex()
            if not m['flex']:
                g.as_fixed()
        return g
    if k == 'bat':
        return plain(M.BatteryModule, cfg, min_capacity=m['minc'], max_capacity=m['maxc'], max_charge=m['mch'], max_discharge=m['mdis'],
                               efficiency=m['eff'], battery_cost_cycle=m['cyc'],
                               battery_transition_model=None if m['trans'] is None else cb.Transition(m['trans'], m.get('trs', 0.0)),
                               init_charge=m.get('init_charge'), init_soc=m.get('init_soc'), initial_step=cfg['i0'],
                               raise_errors=m['rais'])
    cost = cb.GensetCost(**m['cost']) if isinstance(m['cost'], dict) else m['cost']
    return plain(M.GensetModule, cfg, running_min_production=m['rmin'], running_max_production=m['rmax'], genset_cost=cost,
                          co2_per_unit=m['co2'], cost_per_unit_co2=m['co2c'], start_up_time=m['su'], wind_down_time=m['wd'],
                          init_start_up=m['init'], initial_step=cfg['i0'], raise_errors=m['rais'])


def make_modules(cfg):
    from pymgrid.modules import UnbalancedEnergyModule
    mods = []
    for m in cfg['mods']:
        mod = make_module(m, cfg)
        mods.append((m['name'], mod) if m['name'] else mod)
    if cfg['unb'] == 'explicit':
        u = plain(UnbalancedEnergyModule, cfg, False, initial_step=cfg['i0'], loss_load_cost=cfg['llc'],
                                   overgeneration_cost=cfg['ogc'])
        mods.append((cfg['unb_name'], u) if cfg['unb_name'] else u)
    return mods


def make_traj(spec):
    from pymgrid.microgrid.trajectory import (DeterministicTrajectory, FixedLengthStochasticTrajectory, StochasticTrajectory)
    if spec is None:
        return None
    k = spec['kind']
    if k == 'det':
        return DeterministicTrajectory(spec['a'], spec['b'])
    if k == 'fixed':
        return FixedLengthStochasticTrajectory(spec['L'])
    if k == 'stoch':
        return StochasticTrajectory()
    return cb.TableTrajectory(spec['table'])


def make_shaper(spec):
    if spec is None:
        return None
    if spec == 'pv':
        from pymgrid.microgrid.reward_shaping import PVCurtailmentShaper
        return PVCurtailmentShaper()
    if spec == 'batt':
        from pymgrid.microgrid.reward_shaping import BatteryDischargeShaper
        return BatteryDischargeShaper()
    return cb.Shaper(**spec)


def build(cfg, flavour='mg', modules=None, **kw):
    from pymgrid import Microgrid
    from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv
    modules = make_modules(cfg) if modules is None else modules
    args = dict(add_unbalanced_module=cfg['unb'] == 'auto', loss_load_cost=cfg['llc'], overgeneration_cost=cfg['ogc'],
                reward_shaping_func=make_shaper(cfg['shaper']), trajectory_func=make_traj(cfg['traj']))
    args.update(kw)
    return plain(Microgrid if flavour == 'mg' else DiscreteMicrogridEnv if flavour == 'env' else ContinuousMicrogridEnv, cfg, modules, **args)


class Mod:
    def __init__(self, name, idx, kind, m):
        self.name, self.idx, self.kind, self.m = name, idx, kind, m
        self.key = (name, idx)
        self.ctl = kind in CONTROLLABLE and not m.get('flex')       # asked in every step
        self.fc, self.H = (m.get('fc'), m['H'] if m.get('fc') is not None else 0) if kind in COMPONENTS else (None, 0)
        self.inc, self.rel = bool(m.get('inc')), bool(m.get('rel'))
        if kind in COMPONENTS:
            self.set_data(m['ts'] if kind == 'grid' else m['series'])

    def set_data(self, series):
        if self.kind == 'load':
            self.data = [[-abs(x)] for x in series]
            self.lo, self.hi = [min(0.0, min(x[0] for x in self.data))], [0.0]
        elif self.kind == 'ren':
            self.data = [[abs(x)] for x in series]
            self.lo, self.hi = [0.0], [max(0.0, max(x[0] for x in self.data))]
        else:
            self.data = [list(r) if len(r) == 4 else list(r) + [1.0] for r in series]
            self.lo = [min(c) for c in zip(*self.data)]
            self.hi = [max(c) for c in zip(*self.data)]
        self.mid = [(a + b) / 2 for a, b in zip(self.lo, self.hi)]


def resolve_mods(cfg):
    count, out = {}, []
    for m in cfg['mods']:
        name = m['name'] or DEFAULT_NAME[m['kind']]
        i = count.get(name, 0)
        count[name] = i + 1
        out.append(Mod(name, i, m['kind'], m))
    if cfg['unb'] == 'none':
        return out
    uname = 'balancing' if cfg['unb'] == 'auto' or not cfg['unb_name'] else cfg['unb_name']
    out.append(Mod(uname, 0, 'unb', dict(llc=cfg['llc'], ogc=cfg['ogc'])))
    return out


# ---- reference model: pure functions of configuration, reported state and time ------------------------------------

def genset_next(m, s, goal):
    """(status, goal, steps_until_up, steps_until_down) after a request."""
    cur, g0, up, down = s
    goal = 1 if goal > 0.5 else 0
    if goal == cur == g0:
        return s
    steady = (1, 1, 0, m['wd']) if cur else (0, 0, m['su'], 0)
    if goal == cur:                       # a change in progress is aborted
        return steady
    c = (up if goal else down) if g0 == goal else (m['su'] if goal else m['wd'])
    if c == 0:
        return (1, 1, 0, m['wd']) if goal else (0, 0, m['su'], 0)
    return (cur, goal, c - 1, steady[3]) if goal else (cur, goal, steady[2], c - 1)


def genset_tuple(sd):
    return tuple(int(sd[k]) for k in ('current_status', 'goal_status', 'steps_until_up', 'steps_until_down'))


def battery_limits(m, charge):
    """(max provided, max absorbed)"""
    return (max(0.0, min(m['mdis'], charge - m['minc'])) * m['eff'],
            max(0.0, min(m['mch'], m['maxc'] - charge)) / m['eff'])


def battery_internal(m, provided, absorbed, state):
    if provided:
        return -provided / m['eff']
    k = 1.0 if m['trans'] is None else m['trans']
    if m['trans'] is not None and m.get('trs'):
        p, c = battery_limits(m, state['current_charge'])
        k *= 1 - m['trs'] * (0.2 * state['soc'] + 0.2 * (state['current_charge'] - m['minc']) / (m['maxc'] - m['minc']) + 0.1 * c * m['eff'] / (m['mch'] or 1) + 0.1 * p / m['eff'] / (m['mdis'] or 1))
    return absorbed * m['eff'] * k


def fuel(m, e):
    c = m['cost']
    return (c['a'] * e + c['b'] * e * e) if isinstance(c, dict) else c * e


def marginal(mod, t):
    """(production, absorption) marginal cost at step t"""
    m, k = mod.m, mod.kind
    if k == 'bat':
        return m['cyc'], m['cyc']
    if k == 'gen':
        return fuel(m, 1.0) + m['co2c'] * m['co2'], 0.0
    if k == 'grid':
        row = mod.data[t] if t < len(mod.data) else mod.mid
        return row[0], row[1]
    if k == 'unb':
        return m['llc'], m['ogc']
    return 0.0, 0.0


def shaped(spec, info, costs):
    if spec == 'pv':
        return -1.0 * sum(d['curtailment'] for d in info.get('pv', []))
    if spec == 'batt':                  # share of the load met by the batteries, less the share lost
        load = sum(d.get('absorbed_energy', 0.0) for d in info.get('load', []))
        if load == 0:
            return 0.0
        lost = sum(d.get('provided_energy', 0.0) for d in info.get('unbalanced_energy', []))
        out = sum(d.get('provided_energy', 0.0) for d in info.get('battery', []))
        if lost > load or out > load - lost:
            return None                 # in [-1, 1], no more is documented
        return (out - lost) / load
    c, s = spec['c'], 0.0
    for name in sorted(info):
        for i, d in enumerate(info[name]):
            s += (i + 1) * (d.get('provided_energy', 0.0) - c * d.get('absorbed_energy', 0.0)) + 0.25 * d.get('curtailment', 0.0)
    for name in sorted(costs):
        for i, (p, a) in enumerate(costs[name]):
            s += 0.01 * (i + 1) * p - 0.02 * a
    return s


NAMES = dict(bat=('discharge_amount', 'charge_amount'), grid=('grid_import', 'grid_export'), gen=('genset_production', None),
             load=(None, 'load_met'), ren=('renewable_used', None), unb=('loss_load', 'overgeneration'))
TAG_OF_KIND = dict(bat='battery', gen='genset')


def flat_state(sd):
    return {(n, i, k): v for n, l in sd.items() for i, d in enumerate(l) for k, v in d.items()}


def same_state(a, b, tol=TOL):
    fa, fb = flat_state(a), flat_state(b)
    return fa.keys() == fb.keys() and all(close(fa[k], fb[k], tol=tol) for k in fa)


def diff_state(a, b):
    fa, fb = flat_state(a), flat_state(b)
    out = ['%s only on one side' % (k,) for k in sorted(fa.keys() ^ fb.keys(), key=str)[:3]]
    out += ['%s: %r vs %r' % (k, fa[k], fb[k]) for k in fa if k in fb and not close(fa[k], fb[k])][:4]
    return '; '.join(out)


def alike(a, b):
    return set(a) == set(b) and all(len(a[n]) == len(b[n]) and all(
        np.shape(np.atleast_1d(p)) == np.shape(np.atleast_1d(q)) and all(close(i, j) for i, j in zip(np.atleast_1d(p), np.atleast_1d(q))) for p, q in zip(a[n], b[n])) for n in a)


def read_properties(o):
    """All public properties of an object; which of them can be read in which state is not at issue here."""
    for k in dir(type(o)):
        if not k.startswith('_') and isinstance(getattr(type(o), k, None), property):
            try:
                getattr(o, k)
            except Exception:
                pass


class World:
    def __init__(self, cfg, tags, flavour='mg', scratch=None, stats=None, env_kw=None, mg=None, oracle=True):
        self.cfg, self.tags, self.flavour = cfg, set(tags), flavour
        self.mods = resolve_mods(cfg)
        self.bykey = {x.key: x for x in self.mods}
        self.T = cfg['T']
        self.i0 = cfg['i0']
        self.f = cfg['T'] if cfg['f0'] <= 0 else cfg['f0']
        self.a, self.b = self.i0, self.f
        self.t = self.i0
        self.traj = cfg['traj']
        self.rows, self.dirty, self.steps = [], False, 0
        self.stale = False        # a module was reconfigured behind the microgrid's back
        self.scratch, self.stats = scratch, stats if stats is not None else {}
        self.env_kw = env_kw or {}
        self.expect_gen = {}
        self.cols = None
        self.events = []          # observable results, in order
        self.trace, self.states = [], set()
        np.random.seed(cfg['np_seed'])
        if mg is None:
            mg = self.guard('build', lambda: build(cfg, flavour, **self.env_kw))
        self.mg = mg
        for x in self.mods:
            if x.kind == 'gen':
                on = 1 if x.m['init'] else 0
                self.expect_gen[x.key] = (1, 1, 0, x.m['wd']) if on else (0, 0, x.m['su'], 0)
        self.prev = None
        self.note_lists()
        self.audit('construction')
        if self.prev is not None:
            for x in self.mods:
                if x.kind == 'bat':
                    q = x.m['init_charge'] if x.m.get('init_charge') is not None else x.m['init_soc'] * x.m['maxc']
                    self.expect('battery', lambda: close(self.sd(x)['current_charge'], q), lambda: '%s starts with charge %r, configured %r' % (
                        x.key, self.sd(x)['current_charge'], q))

    def clone(self, mg):
        """The same model, for another microgrid that should now be in the same state."""
        w = object.__new__(type(self))
        w.__dict__.update({k: copy.deepcopy(v) for k, v in self.__dict__.items() if k not in ('mg', 'stats')})
        w.stats, w.mg = self.stats, mg
        w.bykey = {x.key: x for x in w.mods}
        return w

    def note_lists(self):
        """What every action number of a discrete environment means, from now on."""
        self.lists = [[(tuple(el.module), el.action) for el in pl] for pl in self.mg.actions_list] if self.flavour == 'env' else None

    # -- infrastructure --
    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def expect(self, tag, cond, msg):
        self.count('chk:' + tag)
        if callable(cond):
            try:
                cond = cond()
            except (KeyError, IndexError, TypeError, ValueError, AttributeError) as e:
                cond, msg = False, 'malformed result (%s: %s)' % (type(e).__name__, e)
        if not cond:
            if tag in self.tags:
                raise Violation(tag, msg() if callable(msg) else msg)
            self.count('foreign:' + tag)
        return bool(cond)

    def guard(self, what, fn):
        """Run an operation that must not fail."""
        try:
            return fn()
        except Violation:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            at = ['%s:%s' % (os.path.basename(f.filename), f.name) for f in tb][-3:]
            raise Violation('exception', '%s failed with %s: %s (%s)' % (what, type(e).__name__, str(e).strip()[:200], ' > '.join(at)))

    def module(self, x, mg=None):
        return (self.mg if mg is None else mg).modules[x.name][x.idx]

    def sd(self, x):
        return self.prev[x.name][x.idx]

    def fin(self):
        return self.f

    # -- what must hold whenever no operation is running --
    def audit(self, when, obs=None):
        mg = self.mg
        clocks = {}
        for x in self.mods:
            clocks[x.key] = self.guard('reading a module', lambda: self.module(x).current_step)
        if not self.expect('clock', set(clocks.values()) == {self.t}, lambda: 'after %s module clocks are %s, expected step %d' % (
                when, clocks, self.t)):
            if len(set(clocks.values())) != 1:
                raise StopRun
            self.t = next(iter(clocks.values()))
            if self.t > self.T or self.t < 0:
                raise StopRun
        sd = self.guard('state_dict()', mg.state_dict)
        if 'clock' in self.tags:
            self.expect('clock', mg.current_step == self.t, lambda: 'current_step %r, expected %d' % (mg.current_step, self.t))
        self.expect('clock', mg.initial_step == self.i0 and mg.final_step == self.f, lambda: 'range is (%r, %r), expected (%r, %r) after %s' % (
            mg.initial_step, mg.final_step, self.i0, self.f, when))
        self.expect('obs', {k: len(v) for k, v in sd.items()} == self.counts(), lambda: 'state has modules %s' % {k: len(v) for k, v in sd.items()})
        self.prev = sd
        for x in self.mods:
            try:
                d = sd[x.name][x.idx]
            except (KeyError, IndexError):
                raise StopRun
            if x.kind == 'bat':
                m = x.m
                self.expect('battery', lambda: close(d['soc'], d['current_charge'] / m['maxc']), lambda: 'after %s %s reports soc %r with charge %r of %r' % (
                    when, x.key, d.get('soc'), d.get('current_charge'), m['maxc']))
                self.expect('battery', lambda: m['minc'] - TOL * max(1, m['maxc']) <= d['current_charge'] <= m['maxc'] * (1 + TOL),
                            lambda: 'after %s charge of %s is %r, outside [%r, %r]' % (when, x.key, d.get('current_charge'), m['minc'], m['maxc']))
            elif x.kind == 'gen':
                e = self.expect_gen.get(x.key)
                if e is not None:
                    if not self.expect('genset', lambda: genset_tuple(d) == e, lambda: 'after %s %s is in state %s (status, goal, until up, until down), expected %s' % (
                            when, x.key, d, e)):
                        pass
                try:
                    self.expect_gen[x.key] = genset_tuple(d)
                except (KeyError, TypeError, ValueError):
                    raise StopRun
            elif x.kind in COMPONENTS and self.tags & {'clock', 'forecast', 'obs'}:
                self.audit_series(x, d, when)
            if 'limits' in self.tags and x.kind in CONTROLLABLE:
                sp, (low, high) = self.module(x).action_space.unnormalized, self.action_range(x)
                if x.kind == 'gen':
                    low, high = [0, low], [1, high]
                else:
                    low, high = [low], [high]
                self.expect('limits', lambda: sp.shape == (len(low),) and all(close(p, q) for p, q in zip(list(sp.low) + list(sp.high), low + high)),
                            lambda: 'after %s the action space of %s is %s..%s, the module can move %s..%s' % (when, x.key, sp.low, sp.high, low, high))
            if 'obs' in self.tags:
                self.audit_obs(x, d, self.module(x), when, obs)
        if 'obs' in self.tags and not self.stale:
            self.audit_space('obs', mg.microgrid_observation_space, {x.key: self.obs_bounds(x) for x in self.mods}, when)
        if 'limits' in self.tags:
            rng = {x.key: self.action_range(x) for x in self.mods if x.ctl}
            self.audit_space('limits', mg.microgrid_action_space, {k: ([0, a], [1, b]) if self.bykey[k].kind == 'gen' else ([a], [b]) for k, (a, b) in rng.items()}, when)

    def audit_space(self, tag, space, bounds, when):
        """The space of the microgrid as a whole is that of its modules"""
        u = space.unnormalized
        got = self.guard('reading a space', lambda: {(n, i): (list(map(float, lo)), list(map(float, hi))) for n in u.spaces for i, (lo, hi) in enumerate(zip(u.low[n], u.high[n]))})
        ok = set(got) == set(bounds) and all(len(g) == len(w) and all(close(p, q) for p, q in zip(g, w)) for k in bounds for g, w in zip(got[k], bounds[k]))
        self.expect(tag, ok, lambda: 'after %s the space of the microgrid is %s, its modules have %s' % (when, got, bounds))

    def flex_order(self):
        xs = [x for x in self.mods if x.m.get('flex')]
        names = [x.name for x in xs]
        return sorted(xs, key=lambda x: (names.index(x.name), x.idx))

    def counts(self):
        c = {}
        for x in self.mods:
            c[x.name] = c.get(x.name, 0) + 1
        return c

    def audit_series(self, x, d, when):
        comps = COMPONENTS[x.kind]
        cur = x.data[self.t] if self.t < self.T else x.mid
        tag = 'clock' if self.t < self.T else 'obs'
        for c, v in zip(comps, cur):
            self.expect(tag, lambda: close(d[c + '_current'], v), lambda: 'after %s at step %d %s shows %s_current=%r, data say %r' % (
                when, self.t, x.key, c, d.get(c + '_current'), v))
        if isinstance(x.fc, (int, float)):
            mod = self.module(x)
            self.expect('forecast', lambda: (bool(mod.forecaster_increase_uncertainty), bool(mod.forecaster_relative_noise)) == (x.inc, x.rel), lambda: 'after %s the noise of %s is increasing, relative: %s, configured %s' % (
                when, x.key, (mod.forecaster_increase_uncertainty, mod.forecaster_relative_noise), (x.inc, x.rel)))
        n_fc = sum('_forecast_' in k for k in d)
        self.expect('forecast', n_fc == x.H * len(comps), lambda: 'after %s %s has %d forecast values, expected %d' % (when, x.key, n_fc, x.H * len(comps)))
        if n_fc != x.H * len(comps):
            return
        for j in range(x.H):
            tt = self.t + 1 + j
            past = self.t >= self.T or tt >= self.T
            for ci, c in enumerate(comps):
                v = d.get('%s_forecast_%d' % (c, j))
                lo, hi = x.lo[ci], x.hi[ci]
                self.count('forecast_values')
                if past:
                    want, why = x.mid[ci], 'the midpoint (past the end)'
                    self.count('forecast_past_end')
                elif x.fc == 'oracle' or (isinstance(x.fc, (int, float)) and x.fc == 0):
                    want, why = x.data[tt][ci], 'the true value of step %d' % tt
                elif isinstance(x.fc, dict):
                    f, n = x.fc, j + 1 if x.fc['scalar'] else x.H       # the steps ahead, or all of them
                    want = (f['k'] * x.data[tt][ci] + f.get('c', 0.0) * x.data[self.t][ci]) / (1 + f.get('g', 0.0) * n)
                    want, why = min(hi, max(lo, want)), 'what the forecaster said, in bounds'
                else:
                    want = None
                if want is not None:
                    self.expect('forecast', lambda: close(v, want), lambda: 'after %s at step %d %s %s_forecast_%d is %r, expected %r: %s' % (
                        when, self.t, x.key, c, j, v, want, why))
                else:
                    self.expect('forecast', lambda: lo - TOL * max(1, abs(lo)) <= v <= hi + TOL * max(1, abs(hi)), lambda: 'after %s at step %d noisy %s_forecast_%d of %s is %r, outside [%r, %r]' % (
                        when, self.t, c, j, x.key, v, lo, hi))

    def obs_bounds(self, x):
        m = x.m
        if x.kind == 'bat':
            return [m['minc'] / m['maxc'], m['minc']], [1, m['maxc']]
        if x.kind == 'gen':
            return [0, 0, 0, 0], [1, 1, m['su'], m['wd']]
        if x.kind == 'unb':
            return [], []
        return x.lo * (1 + x.H), x.hi * (1 + x.H)

    def audit_obs(self, x, d, mod, when, obs):
        lo, hi = self.obs_bounds(x)
        vals = list(d.values())
        if not self.expect('obs', len(vals) == len(lo), lambda: '%s reports %d state values, its space has %d' % (x.key, len(vals), len(lo))):
            return
        want = [(v - l) / ((h - l) or 1.0) for v, l, h in zip(vals, lo, hi)]
        space = mod.observation_space
        self.expect('obs', lambda: tuple(space.normalized.shape) == (len(lo),) and tuple(space.unnormalized.shape) == (len(lo),),
                    lambda: 'declared space of %s has shape %s, state has %d values' % (x.key, space.normalized.shape, len(lo)))
        self.expect('obs', lambda: all(close(p, q) for p, q in zip(space.unnormalized.low, lo)) and all(close(p, q) for p, q in zip(space.unnormalized.high, hi)),
                    lambda: 'declared bounds of %s are %s..%s, expected %s..%s' % (x.key, space.unnormalized.low, space.unnormalized.high, lo, hi))
        nd = self.guard('state_dict(normalized=True)', lambda: mod.state_dict(normalized=True))
        self.expect('obs', lambda: list(nd) == list(d) and all(close(a, b) for a, b in zip(nd.values(), want)),
                    lambda: 'normalised state of %s after %s is %s, state %s in bounds %s..%s' % (x.key, when, nd, d, lo, hi))
        if obs is None:
            return
        o = obs[x.name][x.idx] if x.name in obs and x.idx < len(obs[x.name]) else None
        arr = None if o is None else np.atleast_1d(np.asarray(o, dtype=float))
        if not self.expect('obs', arr is not None and arr.shape == (len(lo),), lambda: 'observation of %s after %s is %r, expected %d values' % (x.key, when, o, len(lo))):
            return
        self.count('observations')
        self.expect('obs', all(close(a, b) for a, b in zip(arr, want)), lambda: 'observation of %s after %s at step %d is %s, state %s in bounds %s..%s means %s' % (
            x.key, when, self.t, list(arr), d, lo, hi, want))
        self.expect('obs', lambda: all(l - 1e-9 <= a <= h + 1e-9 for a, l, h in zip(arr, space.normalized.low, space.normalized.high)),
                    lambda: 'observation of %s after %s is %s, outside its declared space' % (x.key, when, list(arr)))

    # -- actions --
    def energy_limits(self, x, goal):
        """(lowest, highest) energy the module may move in the coming step; positive is provided."""
        m, d = x.m, self.sd(x)
        if x.kind == 'bat':
            p, c = battery_limits(m, d['current_charge'])
            return -c, p
        if x.kind == 'grid':
            s = x.data[self.t][3]
            return -m['exp'] * s, m['imp'] * s
        on = genset_next(m, genset_tuple(d), goal)[0]
        return (m['rmin'], m['rmax']) if on else (0.0, 0.0)

    def action_range(self, x):
        """The least and the most the module can ever be asked to move"""
        m = x.m
        if x.kind == 'bat':
            return -m['mch'] / m['eff'], m['mdis'] * m['eff']
        if x.kind == 'grid':
            return -m['exp'], m['imp']
        return 0.0, m['rmax']

    def pick_request(self, x, a, norm, left=0.0):
        """Returns (value handed to the library without wrapping, requested energy, goal, exact) """
        goal = a.get('g', 0.0)
        if norm:
            low, high = self.action_range(x)
            u = a['u'] + (a.get('out', 0.0) if self.flavour == 'mg' and not (x.kind == 'gen' and a.get('out', 0.0) < 0) else 0.0)
            return u, low + ((high - low) or 1.0) * u, goal, False
        lo, hi = self.energy_limits(x, goal)
        mod = self.module(x)
        k = a['k']
        exact = False
        if k == 'zero':
            v = 0.0
        elif k == 'cover':              # (nearly) what is left of the load
            v = left * (1 + a['f']) if x.kind != 'gen' else max(0.0, left * (1 + a['f']))
            exact = False
        elif x.kind == 'gen':
            if k == 'frac':
                v = lo + a['f'] * (hi - lo)
            elif k == 'limit':
                v, exact = (hi if a['side'] == 'prod' else lo), True
            else:
                v = hi * a['f'] + a['d'] if a['side'] == 'prod' or lo == 0 else lo * 0.4
        elif k == 'frac':
            v = a['f'] * (hi if a['side'] == 'prod' else lo)
        elif k == 'limit':
            v, exact = float(mod.max_production if a['side'] == 'prod' else -mod.max_consumption), True
        else:
            v = hi * a['f'] + a['d'] if a['side'] == 'prod' else lo * a['f'] - a['d']
        return v, v, goal, exact

    def make_control(self, op):
        """control dict plus [(mod, requested energy, goal, exact)]"""
        control, reqs, seen = {}, [], {}
        form = op.get('form', 'list')
        left = sum(-x.data[self.t][0] for x in self.mods if x.kind == 'load')
        if op.get('net'):
            left -= sum(x.data[self.t][0] for x in self.mods if x.kind == 'ren')
        for x in self.mods:
            if not x.ctl:
                continue
            i = seen.get(x.kind, 0)
            seen[x.kind] = i + 1
            acts = op['acts'][x.kind]
            a = acts[i % len(acts)]
            v, e, goal, exact = self.pick_request(x, a, op['norm'], left)
            if form == 'int' and not op['norm'] and abs(v) < 1e9:
                v = np.int64(v) if int(v) % 2 else int(v)
                e, exact = float(v), False
            if x.kind == 'gen':
                v = np.array([goal, float(v)])
            elif form == 'array':
                v = np.array([float(v)])
            elif form == 'scalar':
                v = np.float64(v)
            control.setdefault(x.name, []).append(v)
            reqs.append((x, e, goal, exact))
            lo, hi = self.energy_limits(x, goal)
            left -= min(hi, max(lo, e))
        if form == 'scalar':
            for name, vals in list(control.items()):
                if len(vals) == 1 and not isinstance(vals[0], np.ndarray):
                    control[name] = vals[0]
        return control, reqs

    def would_raise(self, reqs):
        """'no' | 'yes' | 'either'"""
        res = 'no'
        for x, e, goal, exact in reqs:
            if not x.m.get('rais'):
                continue
            lo, hi = self.energy_limits(x, goal)
            tol = 1e-9 * max(1.0, abs(lo), abs(hi), abs(e))
            if exact:
                continue
            if x.kind == 'gen' and hi == 0.0 and e == 0.0:
                continue
            if abs(e - lo) <= tol or abs(e - hi) <= tol:
                if e != 0.0 or not lo <= 0.0 <= hi:
                    res = 'either' if res == 'no' else res
            elif e > hi or e < lo:
                res = 'yes'
        return res

    # -- operations --
    def do(self, op):
        if op.get('rs') is not None:
            np.random.seed(op['rs'] % (2 ** 32))
        self.count('op:' + op['op'])
        self.trace.append(op['op'])
        return getattr(self, 'op_' + op['op'])(op)

    def prepare(self, op):
        """(call, requests, action number, control, whether a module must refuse it)"""
        if self.flavour == 'env':
            n = self.mg.action_space.n
            a = op['an'] % n
            goals = {el.module: el.action for el in self.mg.actions_list[a] if el.module_actions > 1}
            reqs = [(x, None, goals.get(x.key, 0), False) for x in self.mods if x.ctl]
            return (lambda: self.mg.step(a)), reqs, a, a, 'no'
        if self.flavour == 'cenv':
            r = Rng(op['an'])
            acts = {k: [dict(u=r.pick((1, 0.0), (1, 1.0), (5, r.random())), g=r.pick((1, 0.0), (1, 1.0), (1, r.uniform(0.55, 1)), (1, r.uniform(0, .45))))
                        for _ in range(4)] for k in CONTROLLABLE}
            control, reqs = self.make_control(dict(norm=True, form='array', acts=acts))
            nested = {n: tuple(v) for n, v in control.items()}
            if self.env_kw.get('flat_spaces', True):
                nested = np.concatenate([np.atleast_1d(v) for n in sorted(nested) for v in nested[n]])
            return (lambda: self.mg.step(nested)), reqs, None, nested, 'no'
        control, reqs = self.make_control(op)
        return (lambda: self.mg.run(control, normalized=op['norm'])), reqs, None, control, self.would_raise(reqs)

    def op_run(self, op):
        if self.dirty or self.t >= self.T:
            return self.op_reset(op)
        call, reqs, action, control, mode = self.prepare(op)
        before = copy.deepcopy(control)
        pre, t = self.prev, self.t
        rest, tol = self.residual(reqs) if self.cfg['unb'] == 'none' else (0.0, 0.0)
        try:
            out = call()
        except Exception as e:
            if mode != 'no' and isinstance(e, ValueError):
                self.count('rejected_actions')
                self.dirty = True
                self.events.append(['raise', type(e).__name__])
                return None
            if isinstance(e, RuntimeError) and abs(rest) > 1e-9 * tol:
                self.count('steps_that_cannot_balance')
                self.dirty = True
                self.events.append(['raise', type(e).__name__])
                return None
            self.guard('step %d' % t, lambda: (_ for _ in ()).throw(e))
        if not self.expect('balance', mode != 'no' or abs(rest) <= 1e-4 * tol, lambda: 'step %d completed although %r is left that no module can match' % (t, rest)):
            raise StopRun
        self.expect('limits', mode != 'yes', lambda: 'step %d accepted an action outside the limits of a module configured to raise: %s' % (t, [
            (x.key, e, self.energy_limits(x, g)) for x, e, g, _ in reqs if x.m.get('rais')]))
        self.expect('isolate', canon(control) == canon(before), lambda: 'run() changed the control it was given: %s -> %s' % (before, control))
        self.last_control = control
        self.finish_step(out, pre, t, reqs, action=action)
        return out

    def residual(self, reqs):
        """What no module can match (and the scale of the amounts), in a microgrid without a balancing module."""
        need = sum(-x.data[self.t][0] for x in self.mods if x.kind == 'load')
        avail = sum(x.data[self.t][0] for x in self.mods if x.kind == 'ren')
        sc = max(1.0, need, avail)
        for x, e, goal, exact in reqs:
            lo, hi = self.energy_limits(x, goal)
            need -= min(hi, max(lo, e))
            sc += abs(min(hi, max(lo, e)))
        need -= min(max(need, 0.0), avail)
        for x in self.flex_order():
            lo, hi = self.energy_limits(x, 0)
            need -= min(hi, max(lo, need))
        return need, sc

    def op_samp(self, op):
        """A step with an action the microgrid sampled itself."""
        if self.flavour != 'mg' or self.cfg['unb'] == 'none':
            return self.op_run(op)
        if self.dirty or self.t >= self.T:
            return self.op_reset(op)
        strict, t, pre = op['strict'], self.t, self.prev
        flex = op.get('flex')
        control = self.guard('sample_action', lambda: self.mg.sample_action(strict_bound=strict, sample_flex_modules=True) if flex else self.mg.sample_action(strict_bound=strict))
        self.count('sampled_actions')
        if flex:
            control = self.sampled_flex(control, strict, t)
        want = {}
        for x in self.mods:
            if x.ctl:
                want[x.name] = want.get(x.name, 0) + 1
        if not self.expect('limits', lambda: {k: len(v) for k, v in control.items()} == want, lambda: 'sampled action %s for modules %s' % (control, want)):
            raise StopRun
        reqs = []
        for x in self.mods:
            if not x.ctl:
                continue
            u = np.atleast_1d(np.asarray(control[x.name][x.idx], dtype=float))
            if not self.expect('limits', lambda: u.shape == ((2,) if x.kind == 'gen' else (1,)) and bool(((u >= -TOL) & (u <= 1 + TOL)).all()), lambda: 'sampled action %s of %s is not in the normalised action space' % (u, x.key)):
                raise StopRun
            low, high = self.action_range(x)
            e, goal = low + ((high - low) or 1.0) * float(u[-1]), float(u[0]) if x.kind == 'gen' else 0.0
            if strict and abs(goal - 0.5) > 1e-9:
                lo, hi = self.energy_limits(x, goal)
                tol = TOL * max(1.0, abs(low), abs(high))
                self.expect('limits', lo - tol <= e <= hi + tol or low == high, lambda: 'step %d: action %r of %s sampled within its current bounds means %r, limits are %r..%r' % (
                    t, control[x.name][x.idx], x.key, e, lo, hi))
            reqs.append((x, e, goal, False))
        mode = self.would_raise(reqs)
        try:
            out = self.mg.run(control, normalized=True)
        except Exception as e:
            if mode != 'no' and isinstance(e, ValueError):
                self.count('rejected_actions')
                self.dirty = True
                self.events.append(['raise', type(e).__name__])
                return None
            self.guard('step %d' % t, lambda: (_ for _ in ()).throw(e))
        self.expect('limits', mode != 'yes', lambda: 'step %d accepted an action outside the limits of a module configured to raise' % t)
        self.finish_step(out, pre, t, reqs)
        return out

    def sampled_flex(self, control, strict, t):
        """Actions sampled for all modules: those of the flexible ones are in their spaces, too; the rest."""
        control = dict(control)
        for x in self.mods:
            if x.ctl or x.kind not in ('ren', 'grid'):
                continue
            if not self.expect('limits', lambda: x.idx < len(control[x.name]), lambda: 'an action sampled for all modules, %s, has nothing for %s' % (control, x.key)):
                raise StopRun
            u = np.atleast_1d(np.asarray(control[x.name][x.idx], dtype=float))
            self.expect('limits', lambda: u.shape == (1,) and -TOL <= u[0] <= 1 + TOL, lambda: 'sampled action %s of %s is not in the normalised action space' % (u, x.key))
            if strict:
                low, high = self.action_range(x) if x.kind == 'grid' else (0.0, max(r[0] for r in x.data))
                lo, hi = self.energy_limits(x, 0) if x.kind == 'grid' else (0.0, x.data[t][0])
                e, tol = low + ((high - low) or 1.0) * float(u[0]), TOL * max(1.0, abs(low), abs(high))
                self.expect('limits', lo - tol <= e <= hi + tol or low == high, lambda: 'step %d: action %r of %s sampled within its current bounds means %r, limits are %r..%r' % (t, u, x.key, e, lo, hi))
        for name in {x.name for x in self.mods if not x.ctl} - {x.name for x in self.mods if x.ctl}:
            control.pop(name, None)
        self.count('sampled_flex')
        return control

    def op_badact(self, op):
        """An action outside the space of an environment: refused, and nothing has happened."""
        if self.flavour == 'mg' or self.dirty or self.t >= self.T:
            return
        if self.flavour == 'env':
            a = self.mg.action_space.n + op['an'] % 3 if op['an'] % 2 else -1
        else:
            call, reqs, action, a, mode = self.prepare(op)
            if isinstance(a, dict):
                n = sorted(a)[op['an'] % len(a)]
                a[n] = tuple(v + 1.5 for v in a[n])
            else:
                a = a + 1.5
        try:
            self.mg.step(a)
        except Exception:
            pass
        else:
            self.expect('fail', False, 'an action outside the action space was accepted')
            self.dirty = True
            return
        self.count('fault:action_outside_space')
        self.audit('a rejected action')

    def finish_step(self, out, pre, t, reqs, action=None):
        obs, reward, done, info = out
        sc = 1.0
        moved = {}
        for x in self.mods:
            d = info.get(x.name, [])
            if x.idx >= len(d):
                for tag in ('reward', 'done', 'log'):
                    self.expect(tag, False, 'step %d reports nothing for module %s' % (t, x.key))
            if not self.expect('balance', x.idx < len(d), lambda: 'step %d reports nothing for module %s' % (t, x.key)):
                raise StopRun
            d = d[x.idx]
            p, c = float(d.get('provided_energy', 0.0)), float(d.get('absorbed_energy', 0.0))
            if not (math.isfinite(p) and math.isfinite(c)):
                self.expect('balance', False, 'step %d: %s moved %r/%r' % (t, x.key, p, c))
                raise StopRun
            moved[x.key] = (p, c, d)
            sc = max(sc, abs(p), abs(c))
        self.steps += 1
        self.count('steps')
        tol = TOL * sc
        eq = lambda a, b: abs(a - b) <= tol + TOL * max(abs(a), abs(b))

        # demand, availability and clock
        demand = avail = fixed_abs = ctl_p = ctl_c = used = curt = 0.0
        for x in self.mods:
            p, c, d = moved[x.key]
            if x.kind == 'load':
                want = -x.data[t][0]
                ok = p == 0.0 and eq(c, want)
                msg = lambda: 'step %d: %s absorbed %r, demand is %r' % (t, x.key, c, want)
                self.expect('balance', ok, msg)
                self.expect('clock', ok, msg)
                self.expect('limits', ok, msg)
                demand += want
                fixed_abs += c
            elif x.kind == 'ren':
                av = x.data[t][0]
                self.expect('limits', c == 0.0 and -tol <= p <= av + tol, lambda: 'step %d: %s provided %r of %r available' % (t, x.key, p, av))
                ok = 'curtailment' in d and eq(d['curtailment'], av - p)
                msg = lambda: 'step %d: %s reports curtailment %r, %r available and %r used' % (t, x.key, d.get('curtailment'), av, p)
                self.expect('balance', ok, msg)
                self.expect('clock', ok, msg)
                avail += av
                used += p
                curt += d.get('curtailment', 0.0)
            elif x.ctl:
                ctl_p += p
                ctl_c += c
        unb = next((x for x in self.mods if x.kind == 'unb'), None)
        lost, over = moved[unb.key][:2] if unb else (0.0, 0.0)
        total_p = sum(v[0] for v in moved.values())
        total_c = sum(v[1] for v in moved.values())
        if unb is None:
            tol = 2e-5 * (total_p + total_c + 1)      # the library takes this as balanced
        self.expect('balance', eq(total_p, total_c), lambda: 'step %d provides %r and absorbs %r' % (t, total_p, total_c))
        need = demand + ctl_c - ctl_p
        w_used = min(need, avail) if need > 0 else 0.0
        rest = need - w_used
        for x in self.flex_order():         # flexible grids take what is left, in order, as far as they can
            p, c, d = moved[x.key]
            lo, hi = self.energy_limits(x, 0)
            want = min(hi, max(lo, rest))
            for tag in ('balance', 'limits'):
                self.expect(tag, eq(p - c, want) and not (p > tol and c > tol), lambda: 'step %d: %s, deployed as needed within %r..%r, moved %r with %r left, expected %r' % (t, x.key, lo, hi, p - c, rest, want))
            rest -= want
            self.count('flex_deployments')
        w_lost, w_over = max(0.0, rest), max(0.0, -rest)
        for what, got, want in (('renewable use', used, w_used), ('lost load', lost, w_lost), ('overgeneration', over, w_over)):
            self.expect('balance', eq(got, want), lambda: 'step %d: %s is %r, expected %r (demand %r, controlled net %r, renewable %r)' % (
                t, what, got, want, demand, ctl_p - ctl_c, avail))
        self.expect('balance', not (lost > tol and over > tol), lambda: 'step %d reports both lost load %r and overgeneration %r' % (t, lost, over))
        if lost > tol:
            self.count('lost_load_steps')
        if over > tol:
            self.count('overgeneration_steps')
        if curt > tol:
            self.count('curtailed_steps')

        # limits and clipping
        for x, e, goal, exact in reqs:
            p, c, d = moved[x.key]
            got = p - c
            lo, hi = self.energy_limits(x, goal)
            self.expect('limits', not (p > 0 and c > 0) and lo - tol - TOL * abs(lo) <= got <= hi + tol + TOL * abs(hi), lambda: 'step %d: %s moved %r (provided %r, absorbed %r), limits are %r..%r' % (
                t, x.key, got, p, c, lo, hi))
            if x.kind == 'gen':
                on = genset_next(x.m, genset_tuple(pre[x.name][x.idx]), goal)[0]
                self.expect('genset', on or abs(got) <= tol, lambda: 'step %d: %s is not running and produced %r' % (t, x.key, got))
            if e is not None:
                want = min(hi, max(lo, e))
                self.expect('limits', eq(got, want), lambda: 'step %d: %s was asked for %r within %r..%r and moved %r, expected %r' % (
                    t, x.key, e, lo, hi, got, want))
                if want != e:
                    self.count('clipped_actions')
            if x.kind == 'grid' and x.data[t][3] == 0:
                self.count('outage_steps')

        # costs
        total, mod_rewards, costs = 0.0, {}, {}
        rsc = 1.0
        for x in self.mods:
            p, c, d = moved[x.key]
            m = x.m
            r = 0.0
            co2 = None
            if x.kind == 'gen':
                co2 = m['co2'] * p
                r = -fuel(m, p) - m['co2c'] * co2
            elif x.kind == 'bat':
                r = -m['cyc'] * abs(battery_internal(m, p, c, pre[x.name][x.idx]))
            elif x.kind == 'grid':
                row = x.data[t]
                co2 = row[2] * p
                r = (-row[0] * p - m['co2c'] * co2) if not c else row[1] * c
            elif x.kind == 'unb':
                r = -(m['llc'] * p + m['ogc'] * c)
            if co2 is not None:
                self.expect('reward', lambda: eq(d['co2_production'], co2), lambda: 'step %d: %s reports CO2 %r for %r provided and %r absorbed, expected %r' % (
                    t, x.key, d.get('co2_production'), p, c, co2))
            mod_rewards[x.key] = r
            rsc = max(rsc, abs(r))
            total += r
            costs.setdefault(x.name, []).append(marginal(x, t))
        if self.cfg['shaper'] is None:
            want = total
        else:
            want = shaped(self.cfg['shaper'], info, costs)
            self.count('shaped_rewards')
        if want is None:
            self.count('share_rewards_clipped')
            if not self.expect('reward', lambda: -1 <= reward <= 1, lambda: 'step %d: reward %r, the share of the load met by batteries is in [-1, 1]' % (t, reward)):
                return
            want = reward
        self.expect('reward', lambda: close(reward, want, scale=rsc * 10), lambda: 'step %d returned reward %r, expected %r (%s; energies %s)' % (
            t, reward, want, 'shaped' if self.cfg['shaper'] else 'sum of %s' % mod_rewards, {k: v[:2] for k, v in moved.items()}))

        # termination
        self.expect('clock', bool(done) == (t >= self.b - 1), lambda: 'step %d of episode (%d, %d) returned done=%r' % (t, self.a, self.b, done))

        # the row this step must leave in the log
        row = {}
        for x in self.mods:
            p, c, d = moved[x.key]
            state = pre[x.name][x.idx]
            if x.kind == 'gen':           # the request takes effect at the beginning of the step
                goal = next(q[2] for q in reqs if q[0] is x)
                state = dict(zip(state, genset_next(x.m, genset_tuple(state), goal)))
            for k, v in state.items():
                row[(x.name, x.idx, k)] = v
            np_, nc = NAMES[x.kind]
            if np_:
                row[(x.name, x.idx, np_)] = p
            if nc:
                row[(x.name, x.idx, nc)] = c
            for k in ('curtailment', 'co2_production'):
                if k in d:
                    row[(x.name, x.idx, k)] = d[k]
        row[('balance', 0, 'shaped_reward')] = reward
        row[('balance', 0, 'overall_provided_to_microgrid')] = total_p
        row[('balance', 0, 'overall_absorbed_from_microgrid')] = total_c
        row[('balance', 0, 'fixed_provided_to_microgrid')] = 0.0
        row[('balance', 0, 'fixed_absorbed_from_microgrid')] = fixed_abs
        row[('balance', 0, 'controllable_provided_to_microgrid')] = ctl_p
        row[('balance', 0, 'controllable_absorbed_from_microgrid')] = ctl_c
        if action is not None:
            row[('action', 0, '')] = action
        self.rows.append((t, row, mod_rewards, total, sc * 10 + rsc * 10))

        # state after the step
        self.t = t + 1
        for x, e, goal, exact in reqs:
            if x.kind == 'gen':
                self.expect_gen[x.key] = genset_next(x.m, genset_tuple(pre[x.name][x.idx]), goal)
        self.audit('step %d' % t, obs=obs if self.flavour == 'mg' else None)
        for x in self.mods:
            if x.kind == 'bat':
                p, c, d = moved[x.key]
                c0, c1 = pre[x.name][x.idx]['current_charge'], self.sd(x)['current_charge']
                want = min(x.m['maxc'], max(x.m['minc'], c0 + battery_internal(x.m, p, c, pre[x.name][x.idx])))
                self.expect('battery', abs(c1 - want) <= 1e-7 * max(1, x.m['maxc']) if x.m['trans'] is None else abs(c1 - want) <= 1e-7 * max(1, x.m['maxc']),
                            lambda: 'step %d: %s provided %r and absorbed %r at charge %r, which became %r, expected %r' % (t, x.key, p, c, c0, c1, want))
        if self.flavour != 'mg' and 'obs' in self.tags:
            self.check_env_obs(obs, 'step %d' % t)
        a = tuple(self.abstract(x) for x in self.mods if x.kind in ('bat', 'gen', 'grid')) + (
            'L' if lost > tol else 'O' if over > tol else 'B', 'c' if curt > tol else '-',
            'a' if t == self.a else 'z' if t == self.b - 1 else 'm' if t < self.b else 'p')
        self.trace.append(a)
        self.states.add(str(a))
        self.events.append(['step', t, canon(obs), canon(reward), bool(done), canon(info)])

    def abstract(self, x):
        d = self.sd(x)
        if x.kind == 'bat':
            q, m = d['current_charge'], x.m
            return 'b-' if q <= m['minc'] else 'b+' if q >= m['maxc'] else 'b'
        if x.kind == 'gen':
            return 'g%d%d%d%d' % genset_tuple(d)
        return 'u' if self.t >= self.T or x.data[self.t][3] else 'd'

    def check_env_obs(self, obs, when):
        keys = self.env_kw.get('observation_keys') or []
        keys = [keys] if isinstance(keys, str) else keys
        flat = self.env_kw.get('flat_spaces', True)
        space = self.mg.observation_space
        order = list(self.prev)
        norm = self.guard('state_dict(normalized=True)', lambda: self.mg.state_dict(normalized=True))
        self.count('env_observations')
        if flat:
            self.check_meaning({(n, i, k): v for n in order for i, d in enumerate(norm[n]) for k, v in d.items() if not keys or k in keys}, obs, when)
        if not keys:
            want = {n: [list(d.values()) for d in norm[n]] for n in order}
            if flat:
                names = sorted(want)      # gym flattens a Dict space in its own key order
                arr = np.asarray(obs, dtype=float)
                cand = [sum((sum(want[n], []) for n in o), []) for o in (order, names)]
                self.expect('obs', arr.ndim == 1 and any(len(c) == len(arr) and all(close(p, q, tol=1e-6) for p, q in zip(arr, c)) for c in cand),
                            lambda: '%s returned flat observation %s, normalised state is %s' % (when, list(arr), want))
                self.expect('obs', tuple(space.shape) == arr.shape and bool(((arr >= space.low - 1e-6) & (arr <= space.high + 1e-6)).all()),
                            lambda: '%s returned observation of shape %s outside the declared space %s' % (when, arr.shape, space))
            else:
                got = {n: [list(np.atleast_1d(np.asarray(o, dtype=float))) for o in obs[n]] for n in obs if n not in ('balance', 'other')}
                self.expect('obs', got.keys() == want.keys() and all(len(got[n]) == len(want[n]) and all(
                    len(p) == len(q) and all(close(a, b) for a, b in zip(p, q)) for p, q in zip(got[n], want[n])) for n in want),
                    lambda: '%s returned observation %s, normalised state is %s' % (when, got, want))
                self.expect('obs', set(space.spaces) == set(want) and all(len(space.spaces[n]) == len(want[n]) and all(
                    s.shape == (len(q),) for s, q in zip(space.spaces[n], want[n])) for n in want), lambda: 'nested space %s does not match %s' % (space, want))
        else:
            vals = sorted(round(d[k], 9) for n in order for d in norm[n] for k in keys if k in d)
            if flat:
                arr = np.asarray(obs, dtype=float)
                self.expect('obs', arr.shape == (len(vals),) and tuple(space.shape) == arr.shape and all(
                    close(a, b, tol=1e-8) for a, b in zip(sorted(arr), vals)), lambda: '%s returned %s for keys %s, state has %s, space %s' % (when, obs, keys, vals, space.shape))
            else:
                want = {}
                for n in order:
                    for d in norm[n]:
                        v = [d[k] for k in keys if k in d]
                        if v:
                            want.setdefault(n, []).append(v)
                got = {n: [list(np.atleast_1d(np.asarray(o, dtype=float))) for o in l] for n, l in obs.items()}
                self.expect('obs', got.keys() == want.keys() and all(len(got[n]) == len(want[n]) and all(
                    len(p) == len(q) and all(close(a, b) for a, b in zip(p, q)) for p, q in zip(got[n], want[n])) for n in want),
                    lambda: '%s returned %s for keys %s, the normalised state is %s' % (when, got, keys, norm))
                self.expect('obs', set(space.spaces) == set(want) and all(len(space.spaces[n]) == len(want[n]) and all(
                    s.shape == (len(q),) for s, q in zip(space.spaces[n], want[n])) for n in want), lambda: 'nested space %s does not match %s' % (space, want))

    def check_meaning(self, values, obs, when):
        """A position of a flat observation stands for the same quantity throughout."""
        arr = np.asarray(obs, dtype=float).reshape(-1)
        if len(arr) != len(values):
            return
        what, may = getattr(self, 'meaning', (None, None))
        if what != sorted(values):
            may = [set(values) for _ in arr]
        for j, v in enumerate(arr):
            fit = {k for k in may[j] if close(values[k], v, tol=1e-6)}
            self.expect('obs', fit, lambda: '%s: position %d of the observation is %r; so far it was one of %s, now %s' % (when, j, float(v), sorted(may[j]), {k: values[k] for k in may[j]}))
            may[j] = fit or may[j]
        self.meaning = (sorted(values), may)

    def op_reset(self, op):
        charges = {x.key: self.sd(x)['current_charge'] for x in self.mods if x.kind == 'bat'} if self.prev and not self.dirty else {}
        rows = self.rows if not self.dirty else None
        obs = self.guard('reset()', self.mg.reset)
        if self.flavour == 'mg' and rows is not None and isinstance(obs, dict):
            got = obs.get('balance', {})
            cols = {k[2] for r in rows for k in r[1] if k[0] == 'balance'}
            self.expect('log', lambda: all(len(got[c]) == len(rows) and all(close(v, r[1][('balance', 0, c)], scale=r[4]) for v, r in zip(got[c], rows)) for c in cols),
                        lambda: 'the reset returned balance log %s, completed were %d steps' % (got, len(rows)))
        self.begin_episode()
        for x in self.mods:
            if x.kind == 'gen':
                self.expect_gen[x.key] = (1, 1, 0, x.m['wd']) if x.m['init'] else (0, 0, x.m['su'], 0)
        self.dirty = False
        self.audit('reset', obs=obs if self.flavour == 'mg' else None)
        for x in self.mods:
            if x.key in charges:
                self.expect('battery', close(self.sd(x)['current_charge'], charges[x.key]), lambda: 'a reset changed the charge of %s from %r to %r' % (
                    x.key, charges[x.key], self.sd(x)['current_charge']))
        if self.flavour != 'mg' and 'obs' in self.tags:
            self.check_env_obs(obs, 'reset')
        if self.tags & {'log', 'reward'}:
            self.check_log('reset')
        self.events.append(['reset', self.a, self.b, canon({k: v for k, v in obs.items() if k not in ('balance', 'other')} if isinstance(obs, dict) else obs)])
        return obs

    def begin_episode(self):
        """Called after a reset: where the new episode lies, by the trajectory function if there is one."""
        self.rows = []
        tr = self.traj
        if tr is None:
            self.a, self.b = self.i0, self.f
        else:
            x = next(x for x in self.mods if x.kind in COMPONENTS)
            mod = self.module(x)
            a, b = mod.initial_step, mod.final_step
            inits = {y.key: self.module(y).initial_step for y in self.mods}
            fins = {y.key: self.module(y).final_step for y in self.mods if y.kind in COMPONENTS}
            self.expect('clock', set(inits.values()) == {a} and set(fins.values()) == {b}, lambda: 'modules disagree about the episode: %s, %s' % (inits, fins))
            self.expect('clock', self.i0 <= a < b <= self.f, lambda: 'reset started episode (%r, %r), outside or empty within (%r, %r)' % (a, b, self.i0, self.f))
            if tr['kind'] == 'det':
                want = (tr['a'], tr['b'])
            elif tr['kind'] == 'fixed':
                want = (a, a + tr['L'])
            elif tr['kind'] == 'table':
                f = self.mg.trajectory_func
                want = f.table[(f.k - 1) % len(f.table)]
            else:
                want = (a, b)
            self.expect('clock', (a, b) == tuple(want), lambda: 'reset started episode (%r, %r), the trajectory function gave %r' % (a, b, want))
            self.a, self.b = a, b
            self.count('trajectory_episodes')
        self.t = self.a
        self.count('episodes')

    # -- the log --
    def check_log(self, when, mg=None, tag='log'):
        mg = self.mg if mg is None else mg
        df = self.guard('reading the log', lambda: mg.log)
        self.count('logs')
        rows = self.rows
        steps = [r[0] for r in rows]
        if not self.expect(tag, list(df.index) == steps, lambda: 'after %s the log has rows %s, completed steps are %s' % (when, list(df.index), steps)):
            return df
        if not rows:
            return df
        cols = {}
        for c in df.columns:
            c = tuple(c) if isinstance(c, tuple) else (c,)
            cols[(c[0], c[1] if len(c) > 1 else 0, c[2] if len(c) > 2 else '')] = df[c].tolist()
        late = {k for r in rows for k in r[1] if '_forecast_' in k[2]}
        for j, (t, row, mr, total, sc) in enumerate(rows):
            for k in late:
                if k not in row and (k[0], k[1]) != ('balance', 0):
                    self.expect(tag, k not in cols or cols[k][j] != cols[k][j], lambda: 'after %s log column %s of step %d is %r, the module had no such value then' % (when, k, t, cols[k][j]))
            for k, v in row.items():
                got = cols.get(k)
                self.expect(tag, got is not None and close(got[j], v, scale=sc), lambda: 'after %s log column %s of step %d is %r, the step had %r' % (
                    when, k, t, None if got is None else got[j], v))
            s = 0.0
            for x in self.mods:
                got = cols.get((x.name, x.idx, 'reward'))
                if self.expect(tag, got is not None, lambda: 'the log has no reward of %s' % (x.key,)):
                    s += got[j]
                    self.expect('reward', close(got[j], mr[x.key], scale=sc), lambda: 'log gives %s reward %r in step %d, expected %r' % (x.key, got[j], t, mr[x.key]))
            got = cols.get(('balance', 0, 'reward'))
            self.expect(tag, got is not None and close(got[j], s, scale=sc), lambda: 'log gives total reward %r in step %d, its modules %r' % (got and got[j], t, s))
            self.expect('reward', got is not None and close(got[j], total, scale=sc), lambda: 'log gives total reward %r in step %d, expected %r' % (got and got[j], t, total))
        if 'log' in self.tags and tag == 'log':
            self.check_log_views(mg, df, cols, when)
        return df

    def check_log_views(self, mg, df, cols, when):
        """The other ways of reading the log give the same values."""
        same = lambda a, b: len(a) == len(b) and all(p == q or (p != p and q != q) for p, q in zip(a, b))
        d = self.guard('get_log(as_frame=False)', lambda: mg.get_log(as_frame=False))
        self.expect('log', lambda: set(d) == set(cols) and all(list(d[k]) == list(df.index) and same(list(d[k].values()), v) for k, v in cols.items()),
                    lambda: 'after %s the log as a dict differs from the log as a frame' % when)
        one = all(n == 1 for n in self.counts().values())
        f = self.guard('get_log(drop_singleton_key=True)', lambda: mg.get_log(drop_singleton_key=True))
        want = {(k[0], k[2]) if one else k: v for k, v in cols.items()}
        self.expect('log', lambda: list(f.index) == list(df.index) and {tuple(c) for c in f.columns} == set(want) and all(same(f[c].tolist(), want[tuple(c)]) for c in f.columns),
                    lambda: 'after %s the log without module numbers has columns %s, of %s' % (when, list(f.columns)[:4], list(df.columns)[:4]))
        for x in self.mods:
            m = self.module(x) if mg is self.mg else None
            if m is None:
                continue
            own = {k[2]: v for k, v in cols.items() if k[:2] == x.key}
            for what, get in (('log', lambda: m.log), ('log_frame()', m.log_frame), ('log_dict()', m.log_dict)):
                v = self.guard('%s of %s' % (what, x.key), get)
                self.expect('log', lambda: set(v) == set(own) and all(same(list(v[k]), own[k]) for k in own), lambda: 'after %s %s of %s has columns %s, the log of the microgrid %s' % (
                    when, what, x.key, sorted(v), sorted(own)))
            last = self.guard('logger_last of %s' % (x.key,), lambda: m.logger_last)
            self.expect('log', lambda: set(last) == set(own) and all(same([last[k]], own[k][-1:]) for k in own), lambda: 'after %s the last entry of the log of %s is %s, the log ends with %s' % (
                when, x.key, last, {k: v[-1] for k, v in own.items()}))
        self.count('log_views')

    def op_log(self, op):
        if not self.dirty:
            self.check_log('step %d' % self.t)

    # -- reading --
    def op_read(self, op):
        if self.dirty:
            return
        mg = self.mg
        rng = np.random.get_state()
        reads = dict(
            log=lambda: mg.log, get_log=lambda: mg.get_log(as_frame=False), drop=lambda: mg.get_log(drop_singleton_key=True),
            norm=lambda: mg.state_dict(normalized=True), series=lambda: mg.state_series(), nseries=lambda: mg.state_series(normalized=True),
            repr=lambda: (repr(mg), str(mg), [repr(m) for m in mg.module_list]), len=lambda: (len(mg), mg.n_modules),
            cost=lambda: mg.get_cost_info(), spaces=lambda: (mg.microgrid_action_space, mg.microgrid_observation_space),
            empty=lambda: mg.get_empty_action(), dir=lambda: dir(mg), limits=lambda: [self.limits_of(x) for x in self.mods],
            attrs=lambda: mg.modules.get_attrs('current_step', 'module_type'), eq=lambda: mg == mg, tuples=lambda: mg.modules.to_tuples(),
            frames=lambda: [(m.log_frame(), m.log_dict()) for m in mg.module_list], copy=lambda: copy.deepcopy(mg),
            state=lambda: [m.state for m in mg.module_list], marg=lambda: [(m.marginal_cost, m.production_marginal_cost) for m in mg.module_list],
            sample=lambda: mg.sample_action(), strict=lambda: mg.sample_action(strict_bound=True),
            scale=lambda: self.check_norm(op.get('u', 1)), props=lambda: [read_properties(o) for o in self.readable()],
            dumps=lambda: mg.dump() if self.cfg.get('yamlable') and self.flavour != 'cenv' else None, pick=lambda: pickle.dumps(mg) if self.cfg.get('picklable') else None)
        sampled = False
        for w in op['what']:
            if w in ('sample', 'strict') and self.t >= self.T:
                continue
            if w == 'limits' and self.t >= self.T:
                continue
            self.guard('reading %s' % w, reads[w])
            self.count('reads')
            sampled |= w in ('sample', 'strict')
        after = self.guard('state_dict()', mg.state_dict)
        self.expect('obs', same_state(self.prev, after), lambda: 'reading %s changed the state: %s' % (op['what'], diff_state(self.prev, after)))
        for x in self.mods:
            if x.kind in TAG_OF_KIND:
                self.expect(TAG_OF_KIND[x.kind], canon(after[x.name][x.idx]) == canon(self.sd(x)), lambda: 'reading %s changed %s from %s to %s' % (
                    op['what'], x.key, self.sd(x), after[x.name][x.idx]))
        if not sampled:
            self.expect('determinism', same_rng(rng, np.random.get_state()), lambda: 'reading %s used or reseeded the global random generator' % (op['what'],))
        self.audit('reading')

    def readable(self):
        ms = list(self.mg.module_list)
        return [self.mg] + ms + [m.forecaster for m in ms if hasattr(m, 'forecaster')]

    def check_norm(self, u):
        """Scaling states and actions of some of the modules there and back."""
        mg, r = self.mg, Rng(u)
        for what in ('obs', 'act'):
            tag = 'obs' if what == 'obs' else 'limits'
            xs = [x for x in self.mods if what == 'obs' or x.kind in CONTROLLABLE]
            names = sorted({x.name for x in xs})
            if r.chance(0.5):
                names = [n for n in names if r.chance(0.6)]
            raw, want = {}, {}
            for n in names:
                for x in sorted((x for x in xs if x.name == n), key=lambda x: x.idx):
                    if what == 'obs':
                        v, (lo, hi) = list(self.sd(x).values()), self.obs_bounds(x)
                        if len(v) != len(lo):
                            return
                    else:
                        lo, hi = self.action_range(x)
                        e = lo + (hi - lo) * r.random()
                        v, lo, hi = ([float(r.chance(0.5)), e], [0.0, lo], [1.0, hi]) if x.kind == 'gen' else ([e], [lo], [hi])
                    raw.setdefault(n, []).append(np.array(v, dtype=float))
                    want.setdefault(n, []).append([(a - l) / ((h - l) or 1.0) for a, l, h in zip(v, lo, hi)])
            kw = {what: True}
            if set(raw) == set(self.counts() if what == 'obs' else {x.name for x in self.mods if x.ctl}) and not self.stale and all(len(v) == self.counts()[n] for n, v in raw.items()):
                sp = mg.microgrid_observation_space if what == 'obs' else mg.microgrid_action_space
                th = self.guard('normalize', lambda: sp.normalize(copy.deepcopy(raw)))
                self.expect(tag, lambda: alike(th, want), lambda: 'the %s space of the microgrid normalises %s to %s, expected %s' % (what, raw, th, want))
                ba = self.guard('denormalize', lambda: sp.denormalize(th))
                self.expect(tag, lambda: alike(ba, raw), lambda: 'the %s space of the microgrid denormalises %s to %s, expected %s' % (what, th, ba, raw))
            there = self.guard('to_normalized', lambda: mg.to_normalized(copy.deepcopy(raw), **kw))
            self.expect(tag, lambda: alike(there, want), lambda: 'to_normalized(%s, %s=True) gave %s, expected %s' % (raw, what, there, want))
            back = self.guard('from_normalized', lambda: mg.from_normalized(there, **kw))
            self.expect(tag, lambda: alike(back, raw), lambda: 'from_normalized(%s, %s=True) gave %s, expected %s' % (there, what, back, raw))
            self.count('scalings')

    def limits_of(self, x):
        m = self.module(x)
        return m.max_production, m.max_consumption, m.min_production, m.min_act, m.max_act

    # -- restoring --
    def op_restore(self, op):
        """Replace the microgrid by a restored checkpoint of itself, as after a crash; everything must go on as before."""
        if self.dirty:
            return
        self.mg = self.checkpoint(self.mg, op['how'], op.get('name', 'ck'))
        self.count('restores:' + op['how'])
        self.audit('restoring (%s)' % op['how'])
        if self.tags & {'log', 'reward', 'restore'}:
            self.check_log('restoring (%s)' % op['how'])

    def checkpoint(self, mg, how, name='ck'):
        how = self.usable(how)
        if how == 'copy':
            return self.guard('deepcopy', lambda: copy.deepcopy(mg))
        if how == 'pickle':
            return self.guard('pickling', lambda: pickle.loads(pickle.dumps(mg)))
        if how == 'str':
            return self.guard('dump/load', lambda: type(mg).load(mg.dump()))
        path = os.path.join(self.scratch, name + '.yaml')

        def go():
            with open(path, 'w') as f:
                mg.dump(f)
            with open(path) as f:
                return type(mg).load(f)
        return self.guard('dump/load through files', go)

    def usable(self, how):
        if how in ('str', 'file') and (not self.cfg.get('yamlable') or self.flavour == 'cenv'):
            how = 'pickle'
        if how == 'pickle' and not self.cfg.get('picklable'):
            how = 'copy'
        return how

    def op_convert(self, op):
        """Go on as an environment made from this microgrid."""
        n = dict(bat=1, grid=1, gen=2)
        if self.dirty or self.cfg['unb'] == 'none' or not 1 <= sum(n.get(x.kind, 0) for x in self.mods if x.ctl) <= 4 or any(x.m.get('rais') for x in self.mods):
            return
        from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv
        cls = DiscreteMicrogridEnv if op['u'] < 0.7 else ContinuousMicrogridEnv
        kw = dict(flat_spaces=op['u'] * 10 % 1 < 0.5)
        self.mg = self.guard('from_microgrid', lambda: cls.from_microgrid(self.mg, **kw))
        self.flavour, self.env_kw = ('env' if op['u'] < 0.7 else 'cenv'), kw
        self.note_lists()
        self.count('conversions')
        self.audit('conversion to an environment')
        if self.tags & {'log', 'reward'}:
            self.check_log('conversion to an environment')

    # -- reconfiguration --
    def op_rmact(self, op):
        """Take an action out of the space of a discrete environment."""
        if self.flavour != 'env' or self.mg.action_space.n < 2:
            return
        k = op['u'] % self.mg.action_space.n
        self.guard('remove_action', lambda: self.mg.remove_action(k))
        del self.lists[k]
        self.count('actions_removed')
        self.audit('removing an action')

    def op_set_fc(self, op):
        if self.dirty:
            return
        fc, H = op['fc'], op['H']
        if isinstance(fc, dict) and (self.cfg.get('yamlable') or self.b - self.a < 3):
            fc = 'oracle'
        kw = dict(forecast_horizon=H) if H is not None else {}
        H = 23 if H is None else H
        if op.get('inc'):
            kw['forecaster_increase_uncertainty'] = True
        if op.get('rel'):
            kw['forecaster_relative_noise'] = True
        targets = [x for x in self.mods if x.kind in COMPONENTS]
        if op.get('only') is not None:
            names = sorted({x.name for x in targets})
            nm = names[op['only'] % len(names)]
            targets = [x for x in targets if x.name == nm]
            self.guard('set_forecaster', lambda: self.mg.set_forecaster({nm: make_fc(fc)}, **kw))
        else:
            self.guard('set_forecaster', lambda: self.mg.set_forecaster(make_fc(fc), **kw))
        for x in targets:
            x.fc, x.H = fc, (H if fc is not None else 0)
            x.inc, x.rel = bool(op.get('inc')), bool(op.get('rel'))
        self.stale = False
        self.audit('set_forecaster(%r, %d)' % (fc, H))

    def op_set_h(self, op):
        """Change the horizon of one module; one without a forecaster then forecasts perfectly."""
        if self.dirty or self.flavour != 'mg':
            return
        xs = [x for x in self.mods if x.kind in COMPONENTS]
        if not xs:
            return
        x = xs[op['which'] % len(xs)]

        def go():
            self.module(x).forecast_horizon = op['H']
        self.guard('setting forecast_horizon', go)
        x.H, self.stale = op['H'], True
        if x.fc is None and x.H:
            x.fc = 'oracle'
        self.audit('forecast_horizon=%d' % op['H'])

    def op_set_ts(self, op):
        """Other data for one module, of the same length."""
        if self.dirty or self.flavour != 'mg' or self.T < 3:
            return
        xs = [x for x in self.mods if x.kind in COMPONENTS]
        x = xs[op['which'] % len(xs)]
        r, k = Rng(op['u']), op['scale']
        if x.kind == 'grid':
            new = [[v * k * r.random() for v in row[:3]] + [1.0 if r.chance(0.7) else 0.0] for row in x.data]
        else:
            top = max(1.0, max(abs(row[0]) for row in x.data))
            new = [0.0 if r.chance(0.1) else top * k * r.random() for row in x.data]

        def go():
            self.module(x).time_series = array_like(op['form'])([-v for v in new] if op['neg'] and x.kind != 'grid' else new)
        self.guard('setting time_series', go)
        x.set_data(new)
        self.stale = True
        self.count('series_changed')
        self.audit('setting the time series of %s' % (x.key,))

    def op_set_chg(self, op):
        """The charge of a battery set from outside, as a charge or a state of charge."""
        xs = [x for x in self.mods if x.kind == 'bat']
        if self.dirty or not xs:
            return
        x = xs[op['which'] % len(xs)]
        q = x.m['minc'] + (x.m['maxc'] - x.m['minc']) * op['u']
        pre = self.prev

        def go():
            if op['soc']:
                self.module(x).soc = q / x.m['maxc']
            else:
                self.module(x).current_charge = q
        self.guard('setting the charge', go)
        self.count('charges_set')
        self.audit('setting the charge of %s' % (x.key,))
        for y in self.mods:
            if y is x:
                self.expect('battery', close(self.sd(x)['current_charge'], q), lambda: 'the charge of %s was set to %r and is %r' % (x.key, q, self.sd(x)['current_charge']))
            elif y.kind in TAG_OF_KIND:
                self.expect(TAG_OF_KIND[y.kind], canon(self.sd(y)) == canon(pre[y.name][y.idx]), lambda: 'setting the charge of %s changed %s to %s' % (x.key, y.key, self.sd(y)))

    def op_range(self, op):
        """New range of steps, then a reset."""
        if self.traj is not None and self.traj['kind'] in ('det', 'table'):
            return self.op_reset(op)
        n = 3
        if self.traj is not None and self.traj['kind'] == 'fixed':
            n = max(n, self.traj['L'])
        if n > self.T:
            return self.op_reset(op)
        i = int(op['u'] * (self.T - n + 1))
        f = i + n + int(op['v'] * (self.T - i - n + 1))
        f = min(f, self.T)

        def go():
            if i < self.b:
                self.mg.initial_step = i
                self.mg.final_step = f
            else:
                self.mg.final_step = f
                self.mg.initial_step = i
        self.guard('setting the range (%d, %d)' % (i, f), go)
        self.i0, self.f = i, f
        return self.op_reset(op)

    # -- failures inside operations --
    def op_fault(self, op):
        """A step during which the n-th call of a user-supplied function fails."""
        if self.cfg['unb'] == 'none':
            return self.op_run(op)
        if self.dirty or self.t >= self.T:
            return self.op_reset(op)
        call, reqs, action, control, mode = self.prepare(op)
        if mode != 'no':
            return
        pre, t = self.prev, self.t
        SWITCH.arm(op['kind'], op['nth'], op['exc'])
        before = len(SWITCH.fired)
        err = out = None
        try:
            out = call()
        except BaseException as e:
            err = e
        SWITCH.disarm()
        fired = len(SWITCH.fired) > before
        if not fired:
            if err is not None:
                if isinstance(err, (KeyboardInterrupt, SystemExit)):
                    raise err
                self.guard('step %d' % t, lambda: (_ for _ in ()).throw(err))
            return self.finish_step(out, pre, t, reqs, action=action)
        self.count('fault:%s:%s' % (op['kind'], op['exc']))
        if not self.expect('fail', err is not None, lambda: 'step %d returned normally although the %s function failed inside it' % (t, op['kind'])):
            self.dirty = True
            return
        ok = cb.INJECTED[op['exc']]
        chain = err
        seen = False
        while chain is not None and not seen:
            seen = isinstance(chain, ok)
            chain = chain.__cause__ or chain.__context__
        self.expect('fail', seen, lambda: 'step %d failed with %s: %s instead of the error of the %s function' % (t, type(err).__name__, err, op['kind']))
        self.dirty = True
        self.events.append(['fault', op['kind']])

    def op_bad(self, op):
        """A step with a malformed control."""
        if self.flavour != 'mg':
            return self.op_badact(op)
        if self.dirty or self.t >= self.T:
            return self.op_reset(op)
        control, reqs = self.make_control(op)
        names = sorted(control)
        if not names:
            return
        nm = names[op['which'] % len(names)]
        how = op['bad']
        x = next(y for y in self.mods if y.name == nm)
        if how == 'missing':
            del control[nm]
        elif how == 'goal' and x.kind == 'gen':
            control[nm] = [np.array([op['g'], 0.0]) for _ in control[nm]]
        elif how == 'short':
            control[nm] = control[nm][:-1] if isinstance(control[nm], list) else []
        else:
            control[nm] = ['high' for _ in control[nm]] if isinstance(control[nm], list) else 'high'
        t = self.t
        try:
            self.mg.run(control, normalized=op['norm'] if how != 'junk' else False)
        except Exception:
            self.count('fault:bad_control:' + how)
            self.dirty = True
            return
        self.expect('fail', False, 'step %d completed with control %r' % (t, control))
        self.dirty = True


def same_rng(a, b):
    return a[0] == b[0] and (a[1] == b[1]).all() and a[2:] == b[2:]
