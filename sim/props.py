"""One entry per property: how a run is planned from a seed, how it is carried out, and what it may be blamed for."""
import copy

import numpy as np

from . import gen
from .util import Violation, canon, digest
from .world import StopRun, World

REAL = ['pymgrid.Microgrid, pymgrid.envs.DiscreteMicrogridEnv, all modules, forecasters, trajectories, reward shapers, loggers, spaces, serialisation '
        '(imported from the working tree)', 'numpy, pandas, gym, yaml, csv/gzip']
STUB = ['user-supplied callables (cost, transition, forecaster, reward shaper, trajectory) are simulator objects with a fault switch',
        'global numpy random generator: seeded by the plan before every operation']

BASE = dict(run=16, reset=2, read=0.8, log=0.5, restore=1.0, set_fc=0.4, set_h=0.3, set_ts=0.25, set_chg=0.2, range=0.4, fault=0.5, bad=0.3, badact=0.3, convert=0.3, samp=1.0)


class Prop:
    technique = 'deterministic simulation with fault injection: seeded histories against a one-step reference model'
    level_note = ('Seeded search, not proof: every run is one exactly repeatable history of operations and faults against the real library; '
                  'the reference model and the stated ranges of configurations are trusted.')
    lists = ['ops']
    runs = dict(quick=3000, thorough=60000)
    real, stub = REAL, STUB
    assumptions = ['sampling, not proof: the runs listed here are all that was explored',
                   'energies, prices and capacities up to about 1e3, series of up to 30 steps, at most 9 modules; floating point compared to 1e-9 relative']
    rule = ('a run is one random configuration and one random history of operations and faults, all drawn from one seed; non-trivial if at least two '
            'steps completed and an expectation of this property was evaluated; two runs are the same if their sequences of operations and abstract states are')

    def plan(self, r):
        raise NotImplementedError

    def execute(self, plan, out, scratch):
        raise NotImplementedError


def settle(w, out, tags):
    out.sig = digest(w.trace)
    out.states |= w.states
    out.log = digest(w.events)
    out.nontrivial = out.nontrivial or (w.steps >= 2 and any(out.stats.get('chk:' + t) for t in tags))


class WorldProp(Prop):
    tags = ()
    weights = BASE
    cfg_opts = {}
    n = (4, 40)
    p_env = 0.2
    env_kinds = ((3, 'env'), (1, 'cenv'))
    p_yaml = 0.5
    op_opts = {}

    def options(self, r):
        return {}

    def plan(self, r):
        fl = r.pick(*self.env_kinds) if r.chance(self.p_env) else 'mg'
        o = dict(self.cfg_opts, yamlable=r.chance(self.p_yaml), env=fl != 'mg')
        o.update(self.options(r))
        cfg = gen.gen_config(r, **o)
        ops = gen.gen_ops(r, self.weights, dict(o, **self.op_opts), r.pick((3, r.randint(self.n[0], (self.n[0] + self.n[1]) // 2)), (1, r.randint(*self.n))))
        plan = dict(cfg=cfg, ops=ops, flavour=fl, env_kw={})
        if fl != 'mg':
            plan['env_kw'] = self.env_kw(r, cfg)
        return plan

    def env_kw(self, r, cfg):
        return dict(remove_redundant_gensets=r.chance(0.5), flat_spaces=r.chance(0.7))

    def env_kw_for(self, plan):
        kw = dict(plan['env_kw'])
        if plan['flavour'] == 'cenv':
            kw.pop('remove_redundant_gensets', None)
        return kw

    def world(self, plan, out, scratch, **kw):
        return World(plan['cfg'], self.tags, flavour=plan['flavour'], scratch=scratch, stats=out.stats, env_kw=self.env_kw_for(plan), **kw)

    def execute(self, plan, out, scratch):
        w = None
        try:
            w = self.world(plan, out, scratch)
            for op in plan['ops']:
                w.do(op)
            if not w.dirty and set(self.tags) & {'log', 'reward'}:
                w.check_log('the end')
        except StopRun:
            out.stats['stopped_runs'] = out.stats.get('stopped_runs', 0) + 1
        if w is not None:
            settle(w, out, self.tags)
        return w


class C01(WorldProp):
    tags = ('balance',)
    cfg_opts = dict(need=dict(load=1), p_none=0.1)


class C02(WorldProp):
    tags = ('limits',)
    cfg_opts = dict(p_raise=0.35)


class C03(WorldProp):
    tags = ('battery',)
    cfg_opts = dict(need=dict(bat=1), p_raise=0.1)
    weights = dict(BASE, run=24, fault=0.8, set_chg=0.6)
    n = (6, 90)

    def options(self, r):
        return dict(Tmax=60)


class C04(WorldProp):
    tags = ('genset',)
    cfg_opts = dict(need=dict(gen=1), p_raise=0.05)
    weights = dict(BASE, run=20)


class C05(WorldProp):
    tags = ('reward',)
    p_yaml = 0.4
    cfg_opts = dict(p_raise=0.05)


class C06(WorldProp):
    tags = ('clock',)
    cfg_opts = dict(p_traj=0.6, p_raise=0.1, p_none=0.05)
    weights = dict(BASE, reset=4, range=1.5, restore=1.5)


class C07(WorldProp):
    tags = ('log',)
    cfg_opts = dict(p_raise=0.08, p_traj=0.4, p_none=0.05)
    weights = dict(BASE, log=2, restore=1.5, set_fc=0.8, set_h=0.8, read=1.2)


class C12(WorldProp):
    tags = ('forecast',)
    cfg_opts = dict(p_raise=0.05)
    weights = dict(BASE, set_fc=2, set_h=1, restore=1.5, range=0.8)
    p_yaml = 0.4


class C13(WorldProp):
    tags = ('obs',)
    weights = dict(BASE, read=3, set_fc=0.8)
    p_env = 0.4

    def env_kw(self, r, cfg):
        kw = dict(remove_redundant_gensets=True, flat_spaces=r.chance(0.6))
        if r.chance(0.4):
            keys = {'load': ['load_current'], 'ren': ['renewable_current'], 'grid': ['import_price_current', 'grid_status_current'],
                    'bat': ['soc', 'current_charge'], 'gen': ['current_status', 'steps_until_up']}
            ks = sorted({k for m in cfg['mods'] for k in keys[m['kind']]})
            r.shuffle(ks)
            kw['observation_keys'] = ks[:r.randint(1, min(4, len(ks)))]
            if r.chance(0.2):
                kw['observation_keys'] = ks[0]
        return kw

    def execute(self, plan, out, scratch):
        w = super().execute(plan, out, scratch)
        if w is None or not any(op['op'] in ('read', 'log') for op in plan['ops']):
            return
        # the same history without the reading in between must show the same
        quiet = dict(plan, ops=[op for op in plan['ops'] if op['op'] not in ('read', 'log')])
        w2 = super().execute(quiet, out, scratch)
        if w2 is None:
            return
        out.stats['twin_histories'] = out.stats.get('twin_histories', 0) + 1
        for i, (a, b) in enumerate(zip(w.events, w2.events)):
            if a != b:
                raise Violation('obs', 'result %d of the history differs from the one without the reads in between: %s... vs %s...' % (i, str(a)[:300], str(b)[:300]))
        if len(w.events) != len(w2.events):
            raise Violation('obs', 'the history without the reads in between has %d results instead of %d' % (len(w2.events), len(w.events)))


