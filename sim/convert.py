"""C16: old-style microgrids and modular ones, converted into each other at any time and run side by side, against one reference."""
import copy
import math

import numpy as np

from .fail import Interrupter
from .props import STUB, Prop
from .util import Violation, canon, close, digest

GRID_COLS = ('grid_price_import', 'grid_price_export', 'grid_co2', 'grid_ts')
DUST = 1e-3               # an old-style microgrid regards a mismatch below this as met


def series(r, n, hi, p0=0.25):
    kind = r.pick((3, 'any'), (1, 'flat'), (1, 'round'))
    c = round(r.uniform(0, hi), 3)
    out = []
    for _ in range(n):
        v = c if kind == 'flat' else float(r.randint(0, int(hi) + 1)) if kind == 'round' else r.uniform(0, hi)
        out.append(0.0 if r.chance(p0) and kind != 'flat' else v)
    return out


class Part:
    """One microgrid, old-style or modular, and what the reference says of it."""

    def __init__(self, kind, obj, soc, name):
        self.kind, self.obj, self.name = kind, obj, name
        self.t, self.soc, self.soc0, self.done, self.rows = 0, soc, soc, False, []


class Side:
    def __init__(self, plan, out):
        self.c, self.out = plan['conf'], out
        self.parts, self.trace, self.events, self.steps = [], [], [], 0
        self.made = 0

    # -- plumbing --
    def count(self, k, n=1):
        self.out.stats[k] = self.out.stats.get(k, 0) + n

    def expect(self, cond, msg):
        self.count('chk:convert')
        if not cond:
            raise Violation('convert', msg() if callable(msg) else msg)

    def guard(self, what, fn):
        try:
            return fn()
        except Violation:
            raise
        except Exception as e:
            import os
            import traceback
            at = ['%s:%s' % (os.path.basename(f.filename), f.name) for f in traceback.extract_tb(e.__traceback__)][-3:]
            raise Violation('exception', '%s failed with %s: %s (%s)' % (what, type(e).__name__, str(e)[:200], ' > '.join(at)))

    # -- building --
    def old(self):
        import pandas as pd
        from pymgrid._deprecated.non_modular_microgrid import NonModularMicrogrid
        c = self.c
        b, g, e = c['bat'], c['grid'], c['gen']
        par = dict(load=max(c['load']), cost_loss_load=c['cost_loss'], cost_overgeneration=c['cost_over'], cost_co2=c['cost_co2'], PV_rated_power=max(c['pv']))
        acts, prod, cost = ['load', 'pv_consummed', 'pv_curtailed', 'pv'], ['loss_load', 'overgeneration', 'pv_consummed', 'pv_curtailed'], ['loss_load', 'overgeneration', 'co2']
        status = dict(load=[round(c['load'][0], 1)], hour=[0], pv=[round(c['pv'][0], 1)])
        p = {k: [] for k in GRID_COLS}
        if b:
            par.update(battery_soc_0=b['soc'], battery_power_charge=b['pc'], battery_power_discharge=b['pd'], battery_capacity=b['cap'], battery_efficiency=b['eff'],
                       battery_soc_min=b['smin'], battery_soc_max=1.0, battery_cost_cycle=b['cost'])
            acts += ['battery_charge', 'battery_discharge']
            prod += ['battery_charge', 'battery_discharge']
            cost += ['battery']
            status.update(battery_soc=[b['soc']], capa_to_charge=[round((1 - b['soc']) * b['cap'] / b['eff'], 1)], capa_to_discharge=[round((b['soc'] - b['smin']) * b['cap'] * b['eff'], 1)])
        if g:
            par.update(grid_weak=int(min(g['grid_ts']) < 1), grid_power_import=g['imp'], grid_power_export=g['exp'])
            acts += ['grid_import', 'grid_export']
            prod += ['grid_import', 'grid_export']
            cost += ['grid_import', 'grid_export']
            for k in GRID_COLS:
                p[k] = pd.DataFrame({k: g[k]})
            status.update(grid_status=[g['grid_ts'][0]], grid_co2=[g['grid_co2'][0]], grid_price_import=[g['grid_price_import'][0]], grid_price_export=[g['grid_price_export'][0]])
        if e:
            rated = e['rmax'] / e['pmax']
            par.update(genset_polynom_order=3, genset_polynom_0=1.0, genset_polynom_1=0.1, genset_polynom_2=0.01, genset_rated_power=rated, genset_pmin=e['rmin'] / rated,
                       genset_pmax=e['pmax'], fuel_cost=e['cost'], genset_co2=e['co2'])
            acts += ['genset']
            prod += ['genset']
            cost += ['genset']
        cost += ['total_cost']
        p.update(parameters=pd.DataFrame({k: [v] for k, v in par.items()}), df_actions={k: [] for k in acts}, control_dict=acts, df_status=status, grid_spec=0,
                 architecture=dict(PV=1, battery=int(bool(b)), genset=int(bool(e)), grid=int(bool(g))), df_actual_generation={k: [] for k in prod}, df_cost={k: [] for k in cost},
                 df_co2={'co2': []}, pv=pd.DataFrame({'pv': c['pv']}), load=pd.DataFrame({'load': c['load']}))
        return NonModularMicrogrid(p, horizon=c['h'])

    def new(self):
        from pymgrid import Microgrid
        from pymgrid.modules import BatteryModule, GensetModule, GridModule, LoadModule, RenewableModule
        c = self.c
        b, g, e = c['bat'], c['grid'], c['gen']
        fc = dict(forecaster='oracle', forecast_horizon=c['h'] - 1) if c['h'] > 1 or c['fc0'] else {}
        nm = c['names']
        named = lambda k, m: (nm[k], m) if nm.get(k) else m
        mods = [named('load', LoadModule(np.array(c['load']), **fc)), named('pv', RenewableModule(np.array(c['pv']), **fc))]
        if b:
            mods.append(named('bat', BatteryModule(b['smin'] * b['cap'], b['cap'], b['pc'], b['pd'], b['eff'], battery_cost_cycle=b['cost'], init_soc=b['soc'])))
        if g:
            mods.append(named('grid', GridModule(g['imp'], g['exp'], np.array([g[k] for k in GRID_COLS]).T, cost_per_unit_co2=c['cost_co2'], **fc)))
        if e:
            mods.append(named('gen', GensetModule(e['rmin'], e['rmax'], e['cost'], co2_per_unit=e['co2'], cost_per_unit_co2=c['cost_co2'], start_up_time=0, wind_down_time=0,
                                                  init_start_up=e['init'])))
        return Microgrid([mods[i] for i in c['order'] if i < len(mods)], loss_load_cost=c['cost_loss'], overgeneration_cost=c['cost_over'])

    def add(self, kind, obj, soc, whence):
        self.made += 1
        p = Part(kind, obj, soc, '%s microgrid %d (%s)' % ('old-style' if kind == 'old' else 'modular', self.made, whence))
        self.parts.append(p)
        self.configuration(p)
        self.look(p, 'at the start')
        return p

    # -- what a microgrid shows --
    def by_class(self, mg):
        from pymgrid.modules import BatteryModule, GensetModule, GridModule, LoadModule, RenewableModule, UnbalancedEnergyModule
        names = {LoadModule: 'load', RenewableModule: 'pv', BatteryModule: 'bat', GridModule: 'grid', GensetModule: 'gen', UnbalancedEnergyModule: 'unb'}
        out = {}
        for name, lst in mg.modules.to_dict().items():
            for m in lst:
                k = names.get(type(m))
                self.expect(k is not None and k not in out, lambda: 'a converted microgrid has %s twice or of a strange kind: %s' % (name, type(m).__name__))
                out[k] = (name, m)
        return out

    def eq(self, p, what, got, want):
        ok = np.shape(got) == np.shape(want) and all(close(a, b) for a, b in zip(np.ravel(np.asarray(got, dtype=float)), np.ravel(np.asarray(want, dtype=float))))
        self.expect(ok, lambda: '%s: %s is %s, expected %s' % (p.name, what, np.asarray(got).tolist(), np.asarray(want).tolist()))

    def configuration(self, p):
        c = self.c
        b, g, e = c['bat'], c['grid'], c['gen']

        def read():
            if p.kind == 'old':
                o = p.obj
                par = {k: o.parameters[k].values[0] for k in o.parameters.columns}
                self.eq(p, 'load', o._load_ts.iloc[:, 0], c['load'])
                self.eq(p, 'pv', o._pv_ts.iloc[:, 0], c['pv'])
                self.expect(o.architecture == dict(PV=1, battery=int(bool(b)), genset=int(bool(e)), grid=int(bool(g))), lambda: '%s has architecture %s' % (p.name, o.architecture))
                self.eq(p, 'horizon', o.horizon, c['h'])
                want = dict(cost_loss_load=c['cost_loss'], cost_overgeneration=c['cost_over'], load=max(c['load']), PV_rated_power=max(c['pv']))
                if g or e:
                    want.update(cost_co2=c['cost_co2'])
                if b:
                    want.update(battery_soc_0=p.soc, battery_power_charge=b['pc'], battery_power_discharge=b['pd'], battery_capacity=b['cap'], battery_efficiency=b['eff'],
                                battery_soc_min=b['smin'], battery_soc_max=1.0, battery_cost_cycle=b['cost'])
                if g:
                    want.update(grid_power_import=g['imp'], grid_power_export=g['exp'])
                    for k, v in zip(GRID_COLS, (o._grid_price_import, o._grid_price_export, o._grid_co2, o._grid_status_ts)):
                        self.eq(p, k, v.iloc[:, 0], g[k])
                if e:
                    want.update(fuel_cost=e['cost'], genset_co2=e['co2'])
                    self.eq(p, 'genset range', [par['genset_rated_power'] * par['genset_pmin'], par['genset_rated_power'] * par['genset_pmax']], [e['rmin'], e['rmax']])
                for k, v in want.items():
                    self.eq(p, 'parameter ' + k, par[k], v)
            else:
                m = self.by_class(p.obj)
                self.expect(set(m) == {'load', 'pv', 'unb'} | {k for k, v in (('bat', b), ('grid', g), ('gen', e)) if v}, lambda: '%s consists of %s' % (p.name, sorted(m)))
                self.eq(p, 'load', -np.asarray(m['load'][1].time_series)[:, 0], c['load'])
                self.eq(p, 'pv', np.asarray(m['pv'][1].time_series)[:, 0], c['pv'])
                self.eq(p, 'forecast horizon', p.obj.get_forecast_horizon(), c['h'] - 1)
                u = m['unb'][1]
                self.eq(p, 'costs of imbalance', [u.loss_load_cost, u.overgeneration_cost], [c['cost_loss'], c['cost_over']])
                if b:
                    x = m['bat'][1]
                    self.eq(p, 'battery', [x.min_capacity, x.max_capacity, x.max_charge, x.max_discharge, x.efficiency, x.battery_cost_cycle],
                            [b['smin'] * b['cap'], b['cap'], b['pc'], b['pd'], b['eff'], b['cost']])
                if g:
                    x = m['grid'][1]
                    self.eq(p, 'grid', [x.max_import, x.max_export, x.cost_per_unit_co2], [g['imp'], g['exp'], c['cost_co2']])
                    self.eq(p, 'grid data', np.asarray(x.time_series), np.array([g[k] for k in GRID_COLS]).T)
                if e:
                    x = m['gen'][1]
                    self.eq(p, 'genset', [x.running_min_production, x.running_max_production, x.genset_cost, x.co2_per_unit, x.cost_per_unit_co2, x.start_up_time, x.wind_down_time],
                            [e['rmin'], e['rmax'], e['cost'], e['co2'], c['cost_co2'], 0, 0])
        self.guard('reading ' + p.name, read)

    def look(self, p, when):
        """What the microgrid shows now against what the reference says."""
        c, t = self.c, p.t
        b, g = c['bat'], c['grid']

        def read():
            if p.kind == 'old':
                o = p.obj
                self.expect(bool(o.done) == p.done, lambda: '%s, %s: done is %s' % (p.name, when, o.done))
                self.expect(len(o._df_record_cost['total_cost']) == len(p.rows), lambda: '%s, %s: %d costs recorded after %d steps' % (p.name, when, len(o._df_record_cost['total_cost']), len(p.rows)))
                self.eq(p, 'load ' + when, o.load, c['load'][t])
                self.eq(p, 'pv ' + when, o.pv, c['pv'][t])
                now = o.get_updated_values()
                if b:
                    self.eq(p, 'state of charge ' + when, o.battery.soc, p.soc)
                    self.eq(p, 'reported state of charge ' + when, now['battery_soc'], p.soc)
                if g:
                    self.eq(p, 'grid ' + when, [o.grid.status, o.grid.price_import, o.grid.price_export, o.grid.co2], [g['grid_ts'][t], g['grid_price_import'][t], g['grid_price_export'][t], g['grid_co2'][t]])
                    if not p.done:
                        self.eq(p, 'reported grid ' + when, [now['grid_status'], now['grid_price_import'], now['grid_price_export'], now['grid_co2']],
                                [g['grid_ts'][t], g['grid_price_import'][t], g['grid_price_export'][t], g['grid_co2'][t]])
                if not p.done and t > 0:
                    self.eq(p, 'reported load and pv ' + when, [now['load'], now['pv']], [c['load'][t], c['pv'][t]])
                if t + c['h'] <= len(c['load']):
                    f = o.forecast_all()
                    self.eq(p, 'load forecast ' + when, f['load'], c['load'][t:t + c['h']])
                    self.eq(p, 'pv forecast ' + when, f['pv'], c['pv'][t:t + c['h']])
                    if g:
                        for k, q in (('grid_status', 'grid_ts'), ('grid_import', 'grid_price_import'), ('grid_export', 'grid_price_export'), ('grid_co2', 'grid_co2')):
                            self.eq(p, k + ' forecast ' + when, f[k], g[q][t:t + c['h']])
            else:
                m = self.by_class(p.obj)
                self.eq(p, 'step ' + when, p.obj.current_step, t)
                if t < len(c['load']):
                    self.eq(p, 'load ' + when, m['load'][1].current_load, c['load'][t])
                    self.eq(p, 'pv ' + when, m['pv'][1].current_renewable, c['pv'][t])
                if b:
                    self.eq(p, 'state of charge ' + when, m['bat'][1].soc, p.soc)
                log = p.obj.get_log()
                self.expect(len(log) == len(p.rows), lambda: '%s, %s: the log has %d rows after %d steps' % (p.name, when, len(log), len(p.rows)))
        self.guard('reading ' + p.name, read)

    # -- one step --
    def request(self, p, op):
        """Energies asked for, as (charge, discharge, import, export, genset), and whether both kinds of microgrid can do all of it."""
        c, t = self.c, p.t
        b, g, e = c['bat'], c['grid'], c['gen']
        ch = dis = imp = exp = pg = 0.0
        inside = True
        if b:
            up, down = (1 - p.soc) * b['cap'], (p.soc - b['smin']) * b['cap']
            f = op['bat']
            if f > 0:
                dis = f * max(0.0, min(b['pd'], down)) * b['eff'] * (1 - 1e-9)
            else:
                ch = -f * max(0.0, min(b['pc'], up * b['eff'])) * (1 - 1e-9)
            inside = inside and abs(f) <= 1
        if e:
            f = op['gen']
            pg = 0.0 if f <= 0 else min(e['rmin'] + f * (e['rmax'] - e['rmin']), e['rmax'] * (1 - 1e-12))
            pg = max(pg, e['rmin'] * (1 + 1e-12)) if f > 0 else 0.0
        if g and g['grid_ts'][t] == 1:
            f = op['grid']
            if f == 'cover':        # exactly what is missing without the PV
                need = c['load'][t] + ch - dis - pg
                imp, exp = (min(need, g['imp']), 0.0) if need >= 0 else (0.0, min(-need, g['exp']))
            elif f == 'net':        # exactly what is missing with the PV
                need = c['load'][t] - c['pv'][t] + ch - dis - pg
                imp, exp = (min(need, g['imp']), 0.0) if need >= 0 else (0.0, min(-need, g['exp']))
            elif f > 0:
                imp = f * g['imp']
                inside = inside and f <= 1
            else:
                exp = -f * g['exp']
                inside = inside and f >= -1
        return (ch, dis, imp, exp, pg), inside

    def do_step(self, p, op):
        c, t = self.c, p.t
        b, g, e = c['bat'], c['grid'], c['gen']
        if p.done:
            return self.do_reset(p)
        (ch, dis, imp, exp, pg), inside = self.request(p, op)
        if not inside:
            self.count('fault:out_of_range')
        names = {}
        if p.kind == 'old':
            ctl = dict(load=0.0, pv=0.0, pv_consummed=min(c['pv'][t], c['load'][t]), pv_curtailed=0.0)
            if b:
                ctl.update(battery_charge=ch, battery_discharge=dis)
            if g:
                ctl.update(grid_import=imp, grid_export=exp)
            if e:
                ctl.update(genset=pg)
            self.guard('run of ' + p.name, lambda: p.obj.run(ctl))
            o = p.obj
            row = self.guard('reading ' + p.name, lambda: {k: float(v[-1]) for k, v in o._df_record_actual_production.items()})
            row['co2'] = self.guard('co2', lambda: float(o.get_co2()))
            row['cost'] = self.guard('cost', lambda: float(o.get_cost()))
        else:
            m = self.by_class(p.obj)
            act = {}
            if b:
                act[m['bat'][0]] = [dis - ch]
            if g:
                act[m['grid'][0]] = [imp - exp]
            if e:
                act[m['gen'][0]] = [np.array([1.0 if pg > 0 or op['gen'] > 0 else 0.0, pg])]
            _, reward, done, info = self.guard('run of ' + p.name, lambda: p.obj.run(act, normalized=False))

            def read():
                q = lambda k, key: float(info[m[k][0]][0].get(key, 0.0)) if k in m else 0.0
                return dict(battery_charge=q('bat', 'absorbed_energy'), battery_discharge=q('bat', 'provided_energy'), grid_import=q('grid', 'provided_energy'), grid_export=q('grid', 'absorbed_energy'),
                            genset=q('gen', 'provided_energy'), pv_consummed=q('pv', 'provided_energy'), pv_curtailed=q('pv', 'curtailment'), loss_load=q('unb', 'provided_energy'),
                            overgeneration=q('unb', 'absorbed_energy'), co2=q('gen', 'co2_production') + q('grid', 'co2_production'), cost=-float(reward))
            row = self.guard('reading ' + p.name, read)
        # what was moved
        asked = dict(battery_charge=ch, battery_discharge=dis, grid_import=imp, grid_export=exp, genset=pg)
        got = {k: row.get(k, 0.0) for k in asked}
        if inside:
            for k in asked:
                self.expect(close(got[k], asked[k], tol=1e-8), lambda: '%s, step %d: %s %r asked, %r done' % (p.name, t, k, asked[k], got[k]))
        else:
            for k in asked:
                self.expect(-1e-9 <= got[k] <= asked[k] + 1e-8 * max(1.0, asked[k]) or k == 'genset', lambda: '%s, step %d: %s %r asked, %r done' % (p.name, t, k, asked[k], got[k]))
        # battery
        soc = p.soc
        if b:
            soc = p.soc + (got['battery_charge'] * b['eff'] - got['battery_discharge'] / b['eff']) / b['cap']
            self.expect(b['smin'] - 1e-9 <= soc <= 1 + 1e-9, lambda: '%s, step %d: state of charge %r after moving %s' % (p.name, t, soc, got))
        # balance
        need = c['load'][t] + got['battery_charge'] + got['grid_export'] - got['battery_discharge'] - got['grid_import'] - got['genset']
        pv = c['pv'][t]
        use = min(max(need, 0.0), pv)
        want = dict(pv_consummed=use, pv_curtailed=pv - use, loss_load=max(0.0, need - pv), overgeneration=max(0.0, -need))
        dust = DUST if p.kind == 'old' else 1e-8 * max(1.0, abs(need), pv)
        for k, v in want.items():
            self.expect(abs(row[k] - v) <= dust + 1e-9, lambda: '%s, step %d: %s is %r, expected %r (%s, load %r, pv %r)' % (p.name, t, k, row[k], v, got, c['load'][t], pv))
        # CO2 and costs
        co2 = (got['genset'] * e['co2'] if e else 0.0) + (got['grid_import'] * g['grid_co2'][t] if g else 0.0)
        self.expect(close(row['co2'], co2, tol=1e-8), lambda: '%s, step %d: CO2 %r, expected %r' % (p.name, t, row['co2'], co2))
        cost = co2 * c['cost_co2'] + row['loss_load'] * c['cost_loss'] + row['overgeneration'] * c['cost_over']
        if g:
            cost += got['grid_import'] * g['grid_price_import'][t] - got['grid_export'] * g['grid_price_export'][t]
        if e:
            cost += got['genset'] * e['cost']
        if b:        # the modular battery counts what moves inside it
            k = (1.0, 1.0) if p.kind == 'old' else (b['eff'], 1 / b['eff'])
            cost += (got['battery_charge'] * k[0] + got['battery_discharge'] * k[1]) * b['cost']
        self.expect(abs(row['cost'] - cost) <= 1e-8 * max(1.0, abs(cost)), lambda: '%s, step %d: cost %r, expected %r (%s)' % (p.name, t, row['cost'], cost, row))
        p.soc = soc
        p.rows.append(row)
        n = len(c['load'])
        if p.kind == 'old':
            if t == n - c['h'] or t == n - 1:
                p.done = True
            else:
                p.t += 1
        else:
            p.t += 1
            self.expect(bool(done) == (p.t >= n), lambda: '%s, step %d of %d: done is %s' % (p.name, t, n, done))
            p.done = p.t >= n
        self.steps += 1
        self.count('steps')
        self.events.append([p.name, t, canon(row)])
        self.trace.append('%s %s %s' % (p.kind, 'in' if inside else 'out', ''.join('1' if row.get(k, 0) > 0 else '0' for k in sorted(want))))
        self.out.states.add(digest([p.kind, bool(b), bool(g), bool(e), t == 0, p.done, ['%d' % (row.get(k, 0) > 0) for k in sorted(row)]]))

    def do_reset(self, p):
        self.guard('reset of ' + p.name, p.obj.reset)
        p.t, p.rows, p.done = 0, [], False
        if p.kind == 'old':
            p.soc = p.soc0           # an old-style microgrid starts over; a modular one keeps its charge
        self.trace.append('reset ' + p.kind)

    def do_conv(self, p, op):
        if op['cut'] is not None:     # an interruption anywhere in a conversion leaves the microgrid as it was
            def f():
                return p.obj.to_modular() if p.kind == 'old' else p.obj.to_nonmodular()
            # a count of lines first, on a copy
            cp = copy.deepcopy(p.obj)
            with Interrupter() as it:
                self.guard('converting a copy of ' + p.name, lambda: cp.to_modular() if p.kind == 'old' else cp.to_nonmodular())
            it2 = Interrupter(1 + op['cut'] % max(1, it.n), op['exc'])
            try:
                with it2:
                    f()
                hit = False
            except BaseException as e:
                if not isinstance(e, it2.exc):
                    x = e
                    while x is not None and not isinstance(x, it2.exc):
                        x = x.__cause__ or x.__context__
                    if x is None:
                        raise
                hit = True
            self.count('fault:interrupted_conversion' if hit else 'interruption_missed')
        if len(self.parts) >= 5:
            del self.parts[1]
        from pymgrid import Microgrid
        from pymgrid._deprecated.non_modular_microgrid import NonModularMicrogrid
        via = op.get('via') or ''
        ctl = any(self.c[x] for x in ('bat', 'grid', 'gen'))
        if p.kind == 'old' and via.startswith('env') and ctl:
            from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv
            cls = DiscreteMicrogridEnv if via == 'env' else ContinuousMicrogridEnv
            env = self.guard('making an environment of ' + p.name, lambda: cls.from_nonmodular(p.obj))
            o = self.guard('converting an environment made of ' + p.name, lambda: env.to_nonmodular())
            self.add('old', o, p.soc, 'from an environment from ' + p.name)
            self.count('conversions_via_environment')
        elif p.kind == 'new' and via:
            cp = copy.deepcopy(p.obj)
            n = len(self.c['load'])
            a = op['who'] % (n - 1)

            def narrow():                # a narrower range of steps does not take anything from the series
                cp.initial_step, cp.final_step = a, n - (op['who'] % 2 if a < n - 2 else 0)
                if op['way']:
                    cp.reset()
            self.guard('setting the range of a copy of ' + p.name, narrow)
            o = self.guard('converting a copy of ' + p.name, lambda: cp.to_nonmodular())
            self.add('old', o, p.soc, 'from a copy with a narrower range of ' + p.name)
            self.count('conversions_of_a_range')
        elif p.kind == 'old':
            mg = self.guard('converting ' + p.name, (lambda: p.obj.to_modular()) if op['way'] else (lambda: Microgrid.from_nonmodular(p.obj)))
            self.add('new', mg, p.soc, 'from ' + p.name)
        else:
            o = self.guard('converting ' + p.name, (lambda: p.obj.to_nonmodular()) if op['way'] else (lambda: NonModularMicrogrid.from_modular(p.obj)))
            self.add('old', o, p.soc, 'from ' + p.name)
        self.count('conversions')
        self.trace.append('convert ' + p.kind)

    def do_ckpt(self, p, op):
        from pymgrid import Microgrid
        if p.kind == 'old':
            p.obj = self.guard('copying ' + p.name, lambda: copy.deepcopy(p.obj))
        elif op['way']:
            p.obj = self.guard('restoring ' + p.name, lambda: Microgrid.load(p.obj.dump()))
        else:
            p.obj = self.guard('copying ' + p.name, lambda: copy.deepcopy(p.obj))
        self.count('fault:restart')
        self.trace.append('restart ' + p.kind)

    def do_refuse(self, p, op):
        """A microgrid with two modules of a kind, or without a load, cannot be converted: an error, never something else."""
        if p.kind == 'old':
            return
        from pymgrid import Microgrid
        from pymgrid.modules import BatteryModule, LoadModule
        mods = [(n, copy.deepcopy(m)) for k, (n, m) in self.by_class(p.obj).items() if k not in ('unb',) and not (op['way'] and k == 'load')]
        if not op['way']:
            mods.append(('other', BatteryModule(0, 5, 5, 5, 1.0, init_soc=0.5) if self.c['bat'] else LoadModule(np.array(self.c['load']))))
        mg = self.guard('building', lambda: Microgrid(mods))
        try:
            mg.to_nonmodular()
        except (ValueError, TypeError):
            pass
        except Exception as e:
            raise Violation('exception', 'converting a microgrid that cannot be converted failed with %s: %s' % (type(e).__name__, e))
        else:
            self.expect(False, lambda: 'a microgrid %s was converted' % ('without a load' if op['way'] else 'with two modules of a kind'))
        self.count('fault:not_convertible')

    def run(self, plan):
        first = self.guard('building', self.old if plan['origin'] == 'old' else self.new)
        self.add(plan['origin'], first, self.c['bat']['soc'] if self.c['bat'] else 0.0, 'original')
        for i, op in enumerate(plan['ops']):
            p = self.parts[op['who'] % len(self.parts)]
            self.count('op:' + op['op'])
            k = op['op']
            if k == 'step':
                for _ in range(op['n']):
                    self.do_step(p, op)
            elif k == 'both':           # everybody who can takes the same step
                for q in list(self.parts):
                    self.do_step(q, op)
            elif k == 'reset':
                self.do_reset(p)
            elif k == 'conv':
                self.do_conv(p, op)
            elif k == 'ckpt':
                self.do_ckpt(p, op)
            elif k == 'refuse':
                self.do_refuse(p, op)
            for q in self.parts:
                self.look(q, 'after operation %d (%s)' % (i, k))
        for q in self.parts:
            q_soc, q.soc = q.soc, q.soc0     # the parameters of an old-style microgrid hold the charge it started with
            try:
                self.configuration(q)
            finally:
                q.soc = q_soc


class C16(Prop):
    technique = 'deterministic simulation with fault injection: conversions at any point of a history, every microgrid against one reference model'
    runs = dict(quick=2000, thorough=40000)
    lists = ['ops']
    real = ['pymgrid.convert, pymgrid.NonModularMicrogrid, pymgrid.Microgrid and all modules it consists of (imported from the working tree)', 'numpy, pandas, yaml']
    stub = STUB[1:]
    assumptions = ['sampling, not proof: the runs listed here are all that was explored',
                   'one load, one PV, at most one battery, grid and genset (the architecture old-style microgrids have), gensets without start-up and wind-down time, the same CO2 cost everywhere, '
                   'series of 3 to 20 steps, compared episodes from the first step on (a narrower range must not take anything from the series)',
                   'an old-style microgrid does not know outages: nothing is asked of the grid during one; it regards a mismatch below 1e-3 as met']
    rule = ('a run is one random microgrid and one random sequence of steps, resets, conversions, interruptions and restarts; non-trivial if at least two steps completed and a conversion was made; '
            'two runs are the same if their sequences of operations and flow patterns are')

    def plan(self, r):
        n = r.pick((1, r.randint(3, 6)), (3, r.randint(7, 20)))
        big = r.pick((3, 10.0), (1, 100.0), (1, 1.0))
        c = dict(h=min(n - 1, r.pick((2, 1), (3, r.randint(2, 4)), (1, r.randint(1, 8)))), load=series(r, n, big, 0.05), pv=series(r, n, big, 0.4), cost_loss=r.pick((2, 10.0), (1, r.uniform(0, 20))),
                 cost_over=r.pick((2, 1.0), (1, r.uniform(0, 5))), cost_co2=r.pick((1, 0.0), (3, r.uniform(0, 1))), fc0=r.chance(0.5), bat=None, grid=None, gen=None)
        if max(c['load']) == 0:
            c['load'][0] = big
        if r.chance(0.75):
            cap = r.uniform(0.5, 4) * big
            smin = r.pick((1, 0.0), (2, 0.2), (2, r.uniform(0, 0.5)))
            c['bat'] = dict(cap=cap, smin=smin, soc=r.pick((1, smin), (1, 1.0), (4, r.uniform(smin, 1.0))), pc=r.uniform(0.05, 1) * cap, pd=r.uniform(0.05, 1) * cap,
                            eff=r.pick((1, 1.0), (2, 0.9), (2, r.uniform(0.5, 1))), cost=r.pick((1, 0.0), (3, r.uniform(0, 1))))
        if r.chance(0.65):
            weak = r.chance(0.5)
            c['grid'] = dict(imp=r.uniform(0.2, 3) * big, exp=r.pick((1, 0.0), (4, r.uniform(0.2, 3) * big)), grid_ts=[0.0 if weak and r.chance(0.3) else 1.0 for _ in range(n)],
                             grid_price_import=series(r, n, 1.0, 0.1), grid_price_export=series(r, n, 1.0, 0.3), grid_co2=series(r, n, 1.0, 0.1))
        if r.chance(0.5):
            rmax = r.uniform(0.3, 2) * big
            c['gen'] = dict(rmax=rmax, rmin=r.pick((1, 0.0), (2, r.uniform(0, 0.6) * rmax)), cost=r.uniform(0, 2), co2=r.uniform(0, 2), pmax=r.pick((2, 0.9), (1, r.uniform(0.5, 1))), init=r.chance(0.5))
        k = 2 + sum(bool(c[x]) for x in ('bat', 'grid', 'gen'))
        order = list(range(k))
        if r.chance(0.5):
            r.shuffle(order)
        c['order'] = order
        c['names'] = {x: x + '_x' if r.chance(0.5) else None for x in ('load', 'pv', 'bat', 'grid', 'gen')} if r.chance(0.4) else {}
        w = [(10, 'step'), (4, 'both'), (1.2, 'reset'), (2.5, 'conv'), (0.8, 'ckpt'), (0.2, 'refuse')]
        ops = []
        for _ in range(r.pick((3, r.randint(4, 18)), (1, r.randint(10, 45)))):
            op = dict(op=r.pick(*w), who=r.randint(0, 60))
            if op['op'] in ('step', 'both'):
                f = lambda: r.pick((1, 0.0), (4, r.uniform(-1, 1)), (1, 1.0), (1, -1.0), (0.5, r.uniform(-3, 3)))
                op.update(bat=f(), gen=r.pick((2, 0.0), (3, r.uniform(0, 1)), (1, 1.0)), grid=r.pick((4, f()), (1, 'cover'), (1, 'net')), n=r.pick((4, 1), (1, r.randint(2, 6))))
            elif op['op'] in ('conv', 'ckpt', 'refuse'):
                op.update(way=r.chance(0.5), via=r.pick((4, None), (1, 'env'), (0.5, 'envc')), cut=r.randint(0, 10 ** 6) if r.chance(0.2) else None, exc=r.pick((1, 'crash'), (1, 'memory')))
            ops.append(op)
        return dict(conf=c, origin=r.pick((1, 'old'), (1, 'new')), ops=ops)

    def execute(self, plan, out, scratch):
        s = Side(plan, out)
        try:
            s.run(plan)
        finally:
            out.sig = digest(s.trace)
            out.log = digest(s.events)
            out.nontrivial = s.steps >= 2 and out.stats.get('conversions', 0) > 0
