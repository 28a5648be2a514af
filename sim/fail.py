"""C15: failures anywhere inside a step or a reset, then a reset, beside a sibling that must not notice."""
import copy
import os
import pickle
import sys

import numpy as np

from . import callbacks as cb
from . import env, gen
from .callbacks import SWITCH
from .props import BASE, STUB, WorldProp, settle
from .restore import first_difference, module_prints, near, snapshot
from .util import Violation, canon
from .world import StopRun, World, build, make_modules

ALL = ('balance', 'limits', 'battery', 'genset', 'reward', 'clock', 'log', 'forecast', 'obs', 'isolate', 'fail')
INJECTED = cb.INJECTED


class Interrupter:
    """Counts executed source lines of the library and raises at one of them."""

    def __init__(self, at=None, exc='crash'):
        self.exc = cb.INJECTED[exc]
        self.at, self.n, self.where, self.code = at, 0, None, {}
        self.prefix = os.path.join(env.REPO, 'src', 'pymgrid')

    def _global(self, frame, event, arg):
        c = frame.f_code
        ours = self.code.get(c)
        if ours is None:
            ours = self.code[c] = c.co_filename.startswith(self.prefix)
        return self._local if ours else None

    def _local(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            if self.at is not None and self.n == self.at:
                self.where = '%s:%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name, frame.f_lineno)
                self.at = None
                raise self.exc(self.where)
        return self._local

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)


class FailWorld(World):
    """World whose resets can fail, too; audits everything once something has failed."""
    soc_stale = False
    siblings = ()

    def failed(self):
        self.dirty = True
        if self.tags == {'fail'}:
            self.tags = set(ALL)
        self.check_bystanders()

    def watch(self, siblings):
        """[(what, function giving its print, print)]"""
        self.siblings = siblings

    def check_bystanders(self):
        for what, fn, want in self.siblings:
            got = self.guard('reading ' + what, fn)
            self.expect('fail', near(want, got), lambda: 'a failed operation changed %s: %s' % (what, first_difference(want, got)))

    def config(self):
        mods = canon(module_prints(self, self.mg))
        return {k: {a: v for a, v in m.items() if a not in ('steps', 'costs', 'final')} for k, m in mods.items()}

    def expect(self, tag, cond, msg):
        if tag == 'battery' and self.soc_stale:
            return True            # an interruption between the update of the charge and of its quotient; the next step repairs it
        return super().expect(tag, cond, msg)

    def was_injected(self, err, ok, what):
        chain, seen, depth = err, False, 0
        while chain is not None and not seen and depth < 20:
            seen = isinstance(chain, ok)
            chain = chain.__cause__ or chain.__context__
            depth += 1
        self.expect('fail', err is not None and seen, lambda: '%s: the caller got %s' % (what, 'no error' if err is None else '%s: %s' % (type(err).__name__, err)))

    def callbacks(self):
        c = set()
        for x in self.mods:
            if isinstance(x.fc, dict):
                c.add('forecaster')
            if x.kind == 'bat' and x.m['trans'] is not None:
                c.add('transition')
            if x.kind == 'gen' and isinstance(x.m['cost'], dict):
                c.add('genset_cost')
        if isinstance(self.cfg['shaper'], dict):
            c.add('shaper')
        return sorted(c)

    def op_fault(self, op):
        c = self.callbacks()
        if c and op['kind'] not in c:      # somebody who can fail
            op = dict(op, kind=c[op['an'] % len(c)])
        was = self.dirty
        conf = self.guard('reading', self.config) if not was else None
        super().op_fault(op)
        if self.dirty and not was:
            self.failed()
            self.check_config(conf)

    def check_config(self, conf):
        got = self.guard('reading', self.config)
        self.expect('fail', near(conf, got), lambda: 'a failed operation changed the configuration: %s' % first_difference(conf, got))

    def op_bad(self, op):
        was = self.dirty
        conf = self.guard('reading', self.config) if not was else None
        super().op_bad(op)
        if self.dirty and not was:
            self.failed()
            self.check_config(conf)

    def op_freset(self, op):
        """A reset in which a user-supplied function fails."""
        conf = self.guard('reading', self.config)
        SWITCH.arm(op['kind'], op['nth'], op['exc'])
        before = len(SWITCH.fired)
        err = None
        try:
            self.mg.reset()
        except BaseException as e:
            err = e
        SWITCH.disarm()
        if len(SWITCH.fired) == before:
            if err is not None:
                if isinstance(err, (KeyboardInterrupt, SystemExit)):
                    raise err
                self.guard('reset()', lambda: (_ for _ in ()).throw(err))
            self.dirty = True              # a reset of which nothing was looked at; another follows
            return self.op_reset(op)
        self.count('fault:reset:%s:%s' % (op['kind'], op['exc']))
        self.was_injected(err, INJECTED[op['exc']], 'a reset during which the %s function failed' % op['kind'])
        self.failed()
        self.check_config(conf)

    def op_intr(self, op):
        """An interruption at any executed line of the library."""
        if op['what'] != 'reset' and (self.dirty or self.t >= self.T):
            return self.op_reset(op)
        if op['what'] == 'reset':
            call = lambda: self.mg.reset()
            reqs, action = None, None
        else:
            call, reqs, action, control, mode = self.prepare(op)
            if mode != 'no':
                return
        conf = self.guard('reading', self.config)
        pre, t = self.prev, self.t
        # how many lines will it take? on a copy, with the same random numbers
        rng = np.random.get_state()
        twin = self.guard('deepcopy', lambda: copy.deepcopy(self.mg))
        mine, self.mg = self.mg, twin
        c = call if op['what'] == 'reset' else self.prepare(op)[0]
        with Interrupter() as count:
            try:
                c()
            except Exception as e:
                sys.settrace(None)
                self.guard('step %d' % t if reqs is not None else 'reset()', lambda: (_ for _ in ()).throw(e))
        self.mg = mine
        np.random.set_state(rng)
        call = call if op['what'] == 'reset' else self.prepare(op)[0]
        at = 1 + int(op['u'] * count.n)
        err = out = None
        with Interrupter(at, op.get('exc', 'crash')) as intr:
            try:
                out = call()
            except BaseException as e:
                err = e
        self.count('interruptible_lines', count.n)
        if intr.where is None:
            if err is not None:
                self.guard('step %d' % t, lambda: (_ for _ in ()).throw(err))
            if reqs is not None:
                return self.finish_step(out, pre, t, reqs, action=action)
            self.dirty = True
            return self.op_reset(op)
        self.count('fault:%s:%s' % ('out_of_memory' if op.get('exc') == 'memory' else 'interrupted', op['what']))
        self.was_injected(err, INJECTED[op.get('exc', 'crash')], 'a %s interrupted at %s' % (op['what'], intr.where))
        if any(x.kind == 'bat' for x in self.mods) and op['what'] != 'reset':
            self.soc_stale = True
        self.trace.append('at:' + intr.where.split(':')[1])
        self.failed()
        self.check_config(conf)

    def op_fread(self, op):
        """Reading something while a user-supplied function fails."""
        if self.dirty:
            return
        SWITCH.arm('genset_cost', op['nth'], op['exc'])
        before = len(SWITCH.fired)
        err = None
        try:
            {'cost': self.mg.get_cost_info, 'marg': lambda: [m.marginal_cost for m in self.mg.module_list]}[op['what']]()
        except BaseException as e:
            err = e
        SWITCH.disarm()
        if len(SWITCH.fired) > before:
            self.count('fault:read:genset_cost:%s' % op['exc'])
            self.was_injected(err, INJECTED[op['exc']], 'reading costs while the cost function failed')
            self.audit('a failed read')
        elif err is not None:
            self.guard('reading costs', lambda: (_ for _ in ()).throw(err))

    def op_restore(self, op):
        if not self.dirty:
            return super().op_restore(op)
        # a copy of a microgrid in which something failed, to be reset later
        how = 'pickle' if op['how'] in ('pickle', 'file') and self.cfg.get('picklable') else 'copy'
        self.mg = self.guard('copying', lambda: pickle.loads(pickle.dumps(self.mg)) if how == 'pickle' else copy.deepcopy(self.mg))
        self.count('copies_after_failure')

    def op_run(self, op):
        was = self.dirty
        out = super().op_run(op)
        if self.dirty and not was:         # refused by a module configured to raise
            self.failed()
        return out

    def finish_step(self, out, pre, t, reqs, action=None):
        stale, self.soc_stale = self.soc_stale, False
        return super().finish_step(out, pre, t, reqs, action=action)

    def op_reset(self, op):
        out = super().op_reset(op)
        if 'log' in self.tags:
            self.check_log('reset')
        return out


class C15(WorldProp):
    technique = 'deterministic simulation with fault injection: failing callbacks, refused controls and interruption at any line of a step or reset, then recovery'
    tags = ('fail',)
    weights = dict(BASE, fault=3, bad=1.2, badact=0.6, freset=1.2, intr=2.5, fread=0.6, reset=3, restore=0.8)
    cfg_opts = dict(p_raise=0.15, p_traj=0.4)
    p_env, p_yaml = 0.25, 0.15
    n = (6, 36)
    runs = dict(quick=2500, thorough=50000)
    stub = STUB + ['interruption (as by a signal): an exception raised by a trace function at a planned executed line of the library']
    assumptions = WorldProp.assumptions + ['interruptions strike between source lines of the library, not inside numpy, pandas or gym',
                                           'after an interruption the state of charge may be out of date with respect to the charge until the next step']

    def plan(self, r):
        plan = super().plan(r)
        for op in plan['ops']:
            if op['op'] == 'freset':
                op.update(kind=r.pick((2, 'trajectory'), (2, 'forecaster')), nth=r.pick((3, 1), (1, 2), (1, 4)), exc=gen.exc(r))
            elif op['op'] == 'intr':
                op.update(dict(gen.gen_run(r, dict(inrange=True)), op='intr', an=r.randint(0, 10 ** 6)), what=r.pick((3, 'step'), (1, 'reset')), u=r.random(), exc=r.pick((2, 'crash'), (1, 'memory')))
            elif op['op'] == 'fread':
                op.update(what=r.pick((1, 'cost'), (1, 'marg')), nth=r.pick((2, 1), (1, 2)), exc=gen.exc(r))
        # faults need somebody to fail
        if not plan['cfg']['yamlable'] and plan['flavour'] == 'mg' and r.chance(0.5) and plan['cfg']['traj'] is None:
            T = plan['cfg']['T']
            i0, f = plan['cfg']['i0'], plan['cfg']['f0'] if plan['cfg']['f0'] > 0 else T
            tab = []
            for _ in range(r.randint(1, 4)):
                a = r.randint(i0, f - 1)
                tab.append([a, r.randint(a + 1, f)])
            plan['cfg']['traj'] = dict(kind='table', table=tab)
        plan['sib'] = r.randint(0, 3)
        return plan

    def execute(self, plan, out, scratch):
        w = None
        try:
            cfg = plan['cfg']
            np.random.seed(cfg['np_seed'])
            mods = make_modules(cfg)
            kw = self.env_kw_for(plan)
            try:
                mg, sib = build(cfg, plan['flavour'], modules=mods, **kw), build(cfg, 'mg', modules=mods)
            except Exception as e:
                raise Violation('exception', 'construction failed: %s: %s' % (type(e).__name__, e))
            w = FailWorld(cfg, self.tags, flavour=plan['flavour'], scratch=scratch, stats=out.stats, env_kw=kw, mg=mg)
            # a sibling built from the same modules, somewhere in its own episode, and the modules themselves
            sw = World(cfg, (), scratch=scratch, stats={}, mg=sib)
            for op in [o for o in plan['ops'] if o['op'] == 'run'][:plan['sib']]:
                sw.do(op)
            if sw.dirty:
                sw.op_reset({})
            watch = [('another microgrid built from the same modules', lambda: snapshot(sw), snapshot(sw))]
            raw = [m[1] if isinstance(m, tuple) else m for m in mods]
            seen = lambda: canon([[m.state_dict(), m.current_step, getattr(m, 'time_series', None)] for m in raw])
            watch.append(('the modules it was built from', seen, seen()))
            w.watch(watch)
            for op in plan['ops']:
                w.do(op)
            if w.dirty:
                w.op_reset({})
            w.check_bystanders()
            if w.t < w.T:                  # still usable
                for op in [o for o in plan['ops'] if o['op'] == 'run'][:2]:
                    w.do(op)
        except StopRun:
            out.stats['stopped_runs'] = out.stats.get('stopped_runs', 0) + 1
        if w is not None:
            settle(w, out, self.tags)
        return w
