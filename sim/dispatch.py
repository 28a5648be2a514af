"""C14: every step of the discrete environment and of rule-based control against an independent dispatch by list."""
import itertools
import json

import numpy as np

from .props import BASE, WorldProp
from .util import Violation, canon, close
from .world import CONTROLLABLE, StopRun, World, battery_limits, genset_next, genset_tuple, marginal

ATOL = 1e-4               # the library regards less than this as nothing left


def all_lists(mods, drop_redundant):
    """Every order of the controllable modules with every choice of running or stopping the gensets."""
    ctl = [x for x in mods if x.ctl]
    res = set()
    for perm in itertools.permutations(ctl):
        opts = [((x.key, 1),) if x.kind == 'gen' and x.m['rmin'] == 0 and drop_redundant else ((x.key, 0), (x.key, 1)) if x.kind == 'gen' else ((x.key, 0),) for x in perm]
        res |= set(itertools.product(*opts))
    return res


def dispatch(order, remaining, bounds):
    """order: [(key, action)]; bounds(key, action) -> (least, most it can provide, most it can absorb). Returns {key: energy}, what is left."""
    out = {}
    for key, action in order:
        lo, hi, sink = bounds(key, action)
        if remaining > 0:
            e = min(hi, max(lo, remaining))
        else:
            e = -min(sink, -remaining) if sink is not None else lo
        out[key] = e
        remaining -= e
    return out, remaining


class DispatchWorld(World):
    def limits_at(self, x, action, state, t):
        m = x.m
        if x.kind == 'bat':
            p, c = battery_limits(m, state['current_charge'])
            return 0.0, p, c
        if x.kind == 'grid':
            s = x.data[t][3]
            return 0.0, m['imp'] * s, m['exp'] * s
        on = genset_next(m, genset_tuple(state), action)[0] if action is not None else state['current_status']
        return (m['rmin'], m['rmax'], None) if on else (0.0, 0.0, None)

    def compare_dispatch(self, order, states, t, moved, lost, what, applied=False):
        rem = sum(-x.data[t][0] for x in self.mods if x.kind == 'load') - sum(x.data[t][0] for x in self.mods if x.kind == 'ren')
        want, left = dispatch(order, rem, lambda k, a: self.limits_at(self.bykey[k], None if applied else a, states(self.bykey[k]), t))
        left -= sum(x.m['imp'] * x.data[t][3] for x in self.mods if x.m.get('flex'))
        sc = max([1.0, abs(rem)] + [abs(v) for v in want.values()])
        tol = ATOL * (len(want) + 1) + 1e-9 * sc
        for k, a in order:
            self.expect('dispatch', abs(moved[k] - want[k]) <= tol, lambda: '%s by list %s with net load %r: %s moved %r, expected %r (all: %s, expected %s)' % (
                what, order, rem, k, moved[k], want[k], moved, want))
        self.expect('dispatch', abs(lost - max(0.0, left)) <= tol, lambda: '%s by list %s with net load %r lost %r, expected %r' % (what, order, rem, lost, max(0.0, left)))
        self.count('dispatches')
        self.count('dispatch:surplus' if rem < 0 else 'dispatch:deficit')

    def finish_step(self, out, pre, t, reqs, action=None):
        if action is not None and self.flavour == 'env':
            info = out[3]
            try:
                moved = {x.key: float(info[x.name][x.idx].get('provided_energy', 0.0)) - float(info[x.name][x.idx].get('absorbed_energy', 0.0)) for x in self.mods}
                lost = next(float(info[x.name][x.idx].get('provided_energy', 0.0)) for x in self.mods if x.kind == 'unb')
            except (KeyError, IndexError):
                raise Violation('dispatch', 'step %d reports nothing for some module: %s' % (t, sorted(info)))
            self.compare_dispatch(self.lists[action], lambda x: pre[x.name][x.idx], t, moved, lost, 'step %d, action %d' % (t, action))
        return super().finish_step(out, pre, t, reqs, action=action)

    def audit(self, when, obs=None):
        super().audit(when, obs)
        if self.flavour == 'env' and self.lists is not None:
            now = self.guard('reading the action list', lambda: [[(tuple(el.module), el.action) for el in pl] for pl in self.mg.actions_list])
            self.expect('dispatch', now == self.lists and self.mg.action_space.n == len(now), lambda: 'after %s the actions mean %s (space %s), before %s' % (
                when, now, self.mg.action_space, self.lists))

    def note_lists(self):
        super().note_lists()
        if self.flavour == 'env':
            want = all_lists(self.mods, self.env_kw.get('remove_redundant_gensets', True))
            got = [tuple(l) for l in self.lists]
            self.expect('dispatch', len(got) == len(set(got)) and set(got) == want, lambda: 'actions are %d lists, expected the %d orders of the controllable modules; missing %s, extra or double %s' % (
                len(got), len(want), sorted(want - set(got))[:2], [l for l in got if l not in want or got.count(l) > 1][:2]))

    # -- rule-based control --
    def op_rbc(self, op):
        from pymgrid.algos import RuleBasedControl
        if self.dirty or self.t >= self.T:
            return self.op_reset(op)
        ctl = [x for x in self.mods if x.ctl]
        if not 1 <= len(ctl) + sum(x.kind == 'gen' for x in ctl) <= 4:
            return
        drop = op['drop']
        before = canon(self.guard('state_dict()', self.mg.state_dict))
        chosen = None
        if op['list'] is not None:
            pls = self.guard('get_priority_lists', lambda: RuleBasedControl(self.mg, remove_redundant_gensets=drop).get_priority_lists(drop))
            chosen = pls[op['list'] % len(pls)]
        rbc = self.guard('rule-based control', lambda: RuleBasedControl(self.mg, priority_list=chosen, remove_redundant_gensets=drop))
        order = [(tuple(el.module), el.action) for el in rbc.priority_list]
        lists = all_lists(self.mods, drop)
        self.expect('dispatch', tuple(order) in lists, lambda: 'rule-based control uses list %s, not an order of the controllable modules' % (order,))
        if chosen is None:
            costs = [marginal(self.bykey[k], self.t)[0] for k, _ in order]
            self.expect('dispatch', all(a <= b + 1e-9 for a, b in zip(costs, costs[1:])), lambda: 'default list %s has marginal costs %s' % (order, costs))
            self.expect('dispatch', all(a == 1 for k, a in order if self.bykey[k].kind == 'gen'), lambda: 'the default list %s leaves a genset off' % (order,))
        else:
            self.expect('dispatch', order == [(tuple(el.module), el.action) for el in chosen], lambda: 'rule-based control was given %s and uses %s' % (chosen, order))
        if op['wrong']:
            try:
                RuleBasedControl(self.mg, priority_list=list(rbc.priority_list)[:-1] + [rbc.priority_list[0]] if len(order) > 1 else [])
                self.expect('dispatch', False, 'rule-based control accepted a list that is not an order of the controllable modules')
            except Exception:
                self.count('fault:bad_priority_list')
        # may be saved and restored together with its microgrid
        charges = {x.key: self.sd(x)['current_charge'] for x in self.mods if x.kind == 'bat'}
        for rep in range(op['reps']):
            n = op['n']
            df = self.guard('rule-based control', lambda: rbc.run(n))
            self.count('rbc_runs')
            mg = rbc.microgrid
            x0 = next(x for x in self.mods if x.kind in ('load', 'ren', 'grid'))
            a, b = self.module(x0, mg).initial_step, self.module(x0, mg).final_step
            want = list(range(a, min(b, a + n if n is not None else b)))
            if not self.expect('dispatch', list(df.index) == want, lambda: 'rule-based control for %s steps of episode (%d, %d) logged steps %s' % (n, a, b, list(df.index))):
                return
            cols = {(tuple(c) + ('', ''))[:3] if isinstance(c, tuple) else (c, 0, ''): df[c].tolist() for c in df.columns}
            gens = {x.key: ((1, 1, 0, x.m['wd']) if x.m['init'] else (0, 0, x.m['su'], 0)) for x in self.mods if x.kind == 'gen'}
            acts = dict(order)
            for j, t in enumerate(want):
                def states(x):
                    if x.kind == 'gen':
                        return dict(zip(('current_status', 'goal_status', 'steps_until_up', 'steps_until_down'), gens[x.key]))
                    return {'current_charge': cols[(x.name, x.idx, 'current_charge')][j]} if x.kind == 'bat' else {}
                if j == 0:
                    for x in self.mods:
                        if x.kind == 'bat':
                            self.expect('dispatch', close(states(x)['current_charge'], charges[x.key]), lambda: 'rule-based control starts with charge %r of %s, the microgrid has %r' % (
                                states(x)['current_charge'], x.key, charges[x.key]))
                moved = {}
                for x in self.mods:
                    from .world import NAMES
                    p, c = NAMES[x.kind]
                    moved[x.key] = (cols[(x.name, x.idx, p)][j] if p else 0.0) - (cols[(x.name, x.idx, c)][j] if c else 0.0)
                lost = next(cols[(x.name, x.idx, 'loss_load')][j] for x in self.mods if x.kind == 'unb')
                self.compare_dispatch(order, states, t, moved, lost, 'rule-based control, step %d' % t)
                for k in gens:
                    gens[k] = genset_next(self.bykey[k].m, gens[k], acts[k])
            charges = {x.key: self.module(x, mg).current_charge for x in self.mods if x.kind == 'bat'}
        self.expect('dispatch', canon(self.guard('state_dict()', self.mg.state_dict)) == before, lambda: 'rule-based control changed the microgrid it was given')


class C14(WorldProp):
    technique = 'deterministic simulation with fault injection: every step of list-based control against an independent greedy dispatch'
    tags = ('dispatch',)
    weights = dict(BASE, rbc=2.5, rmact=0.4, bad=0.15, fault=0.25)
    cfg_opts = dict(p_raise=0.0, need=dict(load=1))
    env_kinds = ((1, 'env'),)
    p_env, p_yaml = 0.7, 0.5
    n = (4, 30)
    runs = dict(quick=3000, thorough=60000)
    assumptions = WorldProp.assumptions + ['amounts below 1e-4 count as nothing, as in the library: dispatched amounts are compared to 1e-4 per module of the list',
                                           'at most four priority-list elements, so that all orders of each microgrid are in its action space']

    def options(self, r):
        return dict(p_raise=r.pick((2, 0.0), (1, 0.4)))

    def plan(self, r):
        plan = super().plan(r)
        raising = r.chance(0.4)
        for m in plan['cfg']['mods']:
            if m['kind'] in CONTROLLABLE:
                m['rais'] = raising and r.chance(0.6)        # list-based control never asks for what a module refuses
        for op in plan['ops']:
            if op['op'] == 'rbc':
                op.update(drop=r.chance(0.7), list=r.randint(0, 10 ** 6) if r.chance(0.5) else None, n=r.pick((3, r.randint(1, 6)), (1, None)), reps=r.pick((3, 1), (1, 2)), wrong=r.chance(0.2))
        return plan

    def env_kw(self, r, cfg):
        return dict(remove_redundant_gensets=r.chance(0.6), flat_spaces=r.chance(0.7))

    def world(self, plan, out, scratch, **kw):
        return DispatchWorld(plan['cfg'], self.tags, flavour=plan['flavour'], scratch=scratch, stats=out.stats, env_kw=self.env_kw_for(plan), **kw)
