"""Plans: everything a run does, chosen up front from one Rng and stored as plain JSON."""
from .callbacks import ORDINARY
from .util import Rng


def num(r, lo, hi):
    x = r.uniform(lo, hi)
    return r.pick((5, x), (3, round(x, 1)), (1, float(round(x))), (1, int(round(x))), (1, round(x, 3)))


def series(r, T, hi):
    style = r.pick((6, 'rand'), (1, 'const'), (2, 'sparse'), (1, 'floats'), (2, 'ints'), (1, 'scaled'))
    if style == 'const':
        v = num(r, 0, hi)
        return [v] * T
    if style == 'sparse':
        return [0.0 if r.chance(0.5) else num(r, 0, hi) for _ in range(T)]
    if style == 'ints':
        return [r.randint(0, max(1, int(hi))) for _ in range(T)]
    if style == 'floats':
        return [float(r.randint(0, max(1, int(hi)))) for _ in range(T)]
    if style == 'scaled':
        return [r.uniform(0, hi) / 1000 for _ in range(T)]
    return [r.uniform(0, hi) for _ in range(T)]


def gen_forecaster(r, yamlable=True, det=False):
    """None | 'oracle' | number | {'k':..., 'scalar':bool}"""
    opts = [(4, None), (3, 'oracle')]
    if not det:
        opts.append((2, r.pick((1, 0.0), (2, round(r.uniform(0.05, 3), 2)))))
    if not yamlable:
        opts.append((2, {'k': r.pick((1, 1.0), (1, 0.5), (1, 1.7)), 'scalar': r.chance(0.4), 'inplace': r.chance(0.25), 'form': r.pick((4, 'array'), (1, 'list'), (1, 'flat')),
                         'c': r.pick((1, 0.0), (1, 0.5)), 'g': r.pick((1, 0.0), (1, 0.25))}))
    return r.pick(*opts)


def _fc(r, o):
    fc = gen_forecaster(r, o.get('yamlable', True), o.get('det_fc', False))
    h = r.pick((2, 1), (2, 2), (2, 3), (1, 5), (1, 8), (0.3, 23)) if fc is not None else r.pick((1, 0), (1, 3))
    if isinstance(fc, dict) and o.get('_grid'):
        fc['scalar'], fc['form'] = False, 'array' if fc['form'] == 'flat' else fc['form']               # scalar forecasters are for series of one component
    d = {'fc': fc, 'H': h}
    if isinstance(fc, float) and fc:
        d['inc'], d['rel'] = r.chance(0.4), r.chance(0.3)
    return d


def gen_load(r, T, o, hi):
    s = series(r, T, hi)
    return dict(kind='load', series=s, neg=r.chance(0.2), form=r.pick((6, 'array'), (1, 'list'), (1, 'col'), (1, 'series'), (1, 'frame')), **_fc(r, o))


def gen_ren(r, T, o, hi):
    return dict(kind='ren', series=series(r, T, hi), neg=r.chance(0.15), form=r.pick((6, 'array'), (1, 'list'), (1, 'col'), (1, 'series'), (1, 'frame')), **_fc(r, o))


def gen_grid(r, T, o, hi):
    out = r.pick((3, 0.0), (3, 0.25), (1, 0.6), (1, 1.0))
    dear = r.pick((4, 1.0), (1, 30.0))
    ts = []
    cols4 = out > 0 or r.chance(0.3)
    down = False
    for t in range(T):
        row = [num(r, 0, 2 * dear), num(r, 0, dear), num(r, 0, dear)]
        if cols4:
            if out and r.chance(0.5):
                down = r.chance(out)
            row.append(0.0 if down else 1.0)
        ts.append(row)
    if r.chance(0.15):
        for row in ts:
            row[2] = 0.0
    return dict(kind='grid', imp=r.pick((4, num(r, 0, hi * 1.5)), (1, 0.0), (2, float(round(hi)))),
                exp=r.pick((4, num(r, 0, hi)), (1, 0.0)), ts=ts, form=r.pick((4, 'array'), (1, 'frame')), co2c=r.pick((2, 0.0), (2, num(r, 0, 1)), (1, num(r, 0, 40))),
                rais=r.chance(o.get('p_raise', 0.15)), **_fc(r, dict(o, _grid=True)))


def gen_bat(r, T, o, hi):
    maxc = num(r, 1, hi * 3) + 0.5
    minc = r.pick((2, 0.0), (3, maxc * r.uniform(0.05, 0.5)), (1, round(maxc * 0.2, 2)))
    eff = r.pick((2, 1.0), (2, 0.9), (3, r.uniform(0.3, 1.0)), (1, 0.5))
    d = dict(kind='bat', minc=minc, maxc=maxc,
             mch=r.pick((4, num(r, 0.1, hi)), (1, maxc * 2), (1, 0.01)),
             mdis=r.pick((4, num(r, 0.1, hi)), (1, maxc * 2), (1, 0.01)),
             eff=eff, cyc=r.pick((2, 0.0), (3, num(r, 0, 1))),
             rais=r.chance(o.get('p_raise', 0.15)), trans=None)
    lo = minc / maxc
    soc = r.pick((1, lo), (1, 1.0), (4, r.uniform(lo, 1.0)))
    if r.chance(0.6):
        d['init_soc'] = min(1.0, max(lo, soc))
    else:
        d['init_charge'] = min(maxc, max(minc, soc * maxc))
    if not o.get('yamlable', True) and r.chance(0.3):
        d['trans'], d['trs'] = r.pick((1, 1.0), (2, 0.8)), r.pick((1, 0.0), (2, 1.0))
    return d


def gen_gen(r, T, o, hi):
    rmax = num(r, 0.5, hi * 1.2) + 0.1
    rmin = r.pick((2, 0.0), (3, rmax * r.uniform(0.05, 0.9)), (1, rmax))
    d = dict(kind='gen', rmin=rmin, rmax=rmax, cost=num(r, 0, 2), co2=r.pick((1, 0.0), (2, num(r, 0, 2))),
             co2c=r.pick((2, 0.0), (3, num(r, 0, 1)), (1, num(r, 0, 40))), su=r.pick((3, 0), (2, 1), (2, 2), (1, 3), (1, 5)),
             wd=r.pick((3, 0), (2, 1), (2, 2), (1, 3), (0.6, 4), (0.4, 5)), init=r.chance(0.6), rais=r.chance(o.get('p_raise', 0.15)))
    if not o.get('yamlable', True) and r.chance(0.4):
        d['cost'] = {'a': num(r, 0, 1), 'b': num(r, 0, 0.1)}
    return d


MAKERS = dict(load=gen_load, ren=gen_ren, grid=gen_grid, bat=gen_bat, gen=gen_gen)
ALT_NAMES = dict(load=['load', 'demand', 'load_1'], ren=['renewable', 'pv', 'wind', 'renewable_1'], grid=['grid', 'utility', 'grid_1'],
                 bat=['battery', 'storage', 'battery_1'], gen=['genset', 'diesel', 'genset_1'])


def gen_config(r, **o):
    """Options: yamlable, det_fc (deterministic forecasters), p_raise, need={kind: min count}, traj (bool), Tmax."""
    T = r.pick((2, r.randint(3, 6)), (4, r.randint(6, 14)), (1, r.randint(14, o.get('Tmax', 30))))
    hi = r.pick((8, 20.0), (2, 1.0), (2, 300.0), (1, 50000.0))
    need = o.get('need', {})
    counts = dict(load=r.pick((1, 0), (6, 1), (2, 2)), ren=r.pick((2, 0), (4, 1), (2, 2)),
                  grid=r.pick((3, 0), (4, 1), (1, 2)), bat=r.pick((2, 0), (4, 1), (2, 2), (1, 3)),
                  gen=r.pick((3, 0), (4, 1), (1, 2)))
    for k, v in need.items():
        counts[k] = max(counts[k], v)
    if o.get('env'):                        # the number of priority lists is factorial
        while counts['bat'] + counts['grid'] + 2 * counts['gen'] > 4:
            k = r.choice([k for k in ('bat', 'grid', 'gen') if counts[k] > need.get(k, 0)] or ['bat', 'grid', 'gen'])
            counts[k] = max(0, counts[k] - 1)
        if not counts['bat'] + counts['grid'] + counts['gen']:
            counts['bat'] = 1
        o = dict(o, p_raise=0.0)
    if not (counts['load'] or counts['ren'] or counts['grid']):
        counts['load'] = 1
    mods = []
    for k in ('load', 'ren', 'grid', 'bat', 'gen'):
        for _ in range(counts[k]):
            m = MAKERS[k](r, T, o, hi)
            m['name'] = r.pick((5, None), (1, r.choice(ALT_NAMES[k]))) if o.get('names', True) else None
            mods.append(m)
    r.shuffle(mods)
    if counts['grid'] and r.chance(o.get('p_flex', 0.15)) and (not o.get('env') or counts['bat'] + counts['gen']):
        nm = r.choice([m['name'] or 'grid' for m in mods if m['kind'] == 'grid'])
        flex = r.chance(0.8)
        for m in mods:
            if m['kind'] == 'grid' and (m['name'] or 'grid') == nm:
                m['flex'] = flex
    i0, f0 = 0, -1
    if T >= 5 and r.chance(0.3):
        i0 = r.randint(0, T - 4)
        f0 = r.pick((1, -1), (2, r.randint(i0 + 3, T)))
    cfg = dict(T=T, i0=i0, f0=f0, mods=mods, unb=r.pick((3, 'auto'), (1, 'explicit')), llc=num(r, 0, 20), ogc=num(r, 0, 5),
               unb_name=r.pick((2, None), (1, 'unbalanced_energy')), shaper=None, traj=None, np_seed=r.randint(0, 2 ** 31 - 1))
    cfg['omit'] = r.chance(0.35)
    if cfg['omit'] and r.chance(0.7):
        cfg['llc'], cfg['ogc'] = 10, 2
    if i0:
        cfg['unb'] = 'explicit'             # an automatically added balancing module always starts at step 0
    if counts['grid'] and not o.get('env') and r.chance(o.get('p_none', 0.0)):      # no balancing module; grids make up for it as far as they can
        cfg['unb'] = 'none'
        for m in mods:
            if m['kind'] == 'grid':
                m['flex'] = True
                if r.chance(0.8):
                    m['imp'], m['exp'] = hi * 6, hi * 6
                if r.chance(0.7):
                    m['ts'] = [row[:3] + [1.0] * (len(row) - 3) for row in m['ts']]
    cfg['yamlable'] = bool(o.get('yamlable', True))
    fin = T if f0 <= 0 else f0
    if o.get('shaper', True) and r.chance(0.25) and cfg['unb'] != 'none':
        cfg['shaper'] = r.pick((1, 'pv'), (1, 'batt')) if o.get('yamlable', True) or r.chance(0.4) else {'c': num(r, 0, 2)}
    if o.get('traj', True) and r.chance(o.get('p_traj', 0.3)):
        k = r.pick((2, 'det'), (2, 'fixed'), (2, 'stoch'), (0 if o.get('yamlable', True) else 1, 'table'))
        n = fin - i0
        if k == 'det':
            a = r.randint(i0, fin - 1)
            cfg['traj'] = dict(kind=k, a=a, b=r.randint(a + 1, fin))
        elif k == 'fixed':
            cfg['traj'] = dict(kind=k, L=r.randint(1, n))
        elif k == 'stoch' and n >= 3:
            cfg['traj'] = dict(kind=k)
        elif k == 'table':
            tab = []
            for _ in range(r.randint(1, 4)):
                a = r.randint(i0, fin - 1)
                tab.append([a, r.randint(a + 1, fin)])
            cfg['traj'] = dict(kind=k, table=tab)
    cfg['picklable'] = not any(isinstance(m.get('fc'), dict) and m['fc']['scalar'] for m in mods)
    return cfg


# ---- actions: symbolic, resolved against the state at execution time -------------------------------------------

def gen_act(r, kind, o):
    """kinds of request: zero, prod/cons fraction of the current limit, exact limit, beyond it, normalised point"""
    k = r.pick((1, 'zero'), (4, 'frac'), (3, 'limit'), (2 if not o.get('inrange') else 0, 'beyond'), (1.5 if not o.get('inrange') else 0, 'cover'))
    side = r.pick((1, 'prod'), (1, 'cons'))
    d = dict(k=k, side=side)
    if k == 'frac':
        d['f'] = r.pick((4, r.uniform(0.02, 0.98)), (1, 0.5), (1, 1e-6))
    elif k == 'beyond':
        d['f'] = r.pick((3, r.uniform(1.05, 4)), (1, 100.0), (1, 1 + 10.0 ** -r.uniform(2, 6.5)))
        d['d'] = r.pick((1, 0.5), (1, 25.0)) if d['f'] > 1.04 else 0.0
    elif k == 'cover':
        d['f'] = r.pick((1, 0.0), (3, r.choice([1, -1]) * 10.0 ** -r.uniform(1, 8)))
    if kind == 'gen':
        d['g'] = r.pick((2, 0.0), (3, 1.0), (1, r.uniform(0, 0.45)), (1, r.uniform(0.55, 1.0)))
    return d


def gen_run(r, o):
    """One step: actions for up to 3 modules of each controllable kind; unused ones are ignored."""
    norm = r.chance(0.25) and not o.get('no_norm')
    acts = {}
    for kind in ('bat', 'grid', 'gen'):
        if norm:
            acts[kind] = [dict(out=0.0 if o.get('inrange') else r.pick((12, 0.0), (1, 1.0), (1, -1.0)), u=r.pick((1, 0.0), (1, 1.0), (5, r.random())), g=r.pick((1, 0.0), (1, 1.0), (1, r.uniform(0.55, 1)), (1, r.uniform(0, .45))))
                          for _ in range(3)]
        else:
            acts[kind] = [gen_act(r, kind, o) for _ in range(3)]
    return dict(op='run', norm=norm, acts=acts, net=r.chance(0.5), form=r.pick((5, 'list'), (1, 'scalar'), (1, 'array'), (1, 'int')))


# ---- histories ---------------------------------------------------------------------------------------------------

READS = ['log', 'get_log', 'drop', 'norm', 'series', 'nseries', 'repr', 'len', 'cost', 'spaces', 'empty', 'dir', 'limits', 'attrs', 'eq',
         'tuples', 'frames', 'copy', 'state', 'marg', 'sample', 'strict', 'dumps', 'pick', 'scale', 'scale', 'props', 'props']


def exc(r):
    return r.pick((1, 'fault'), (1, 'crash'), (1, 'attr'), (3, r.choice(ORDINARY)))


def gen_op(r, kind, o):
    if kind == 'run':
        op = gen_run(r, o)
        op['an'] = r.randint(0, 10 ** 6)
        return op
    if kind == 'samp':
        return dict(gen_run(r, o), op='samp', an=r.randint(0, 10 ** 6), strict=r.chance(0.6), flex=r.chance(0.25))
    op = dict(op=kind)
    if kind == 'convert':
        op['u'] = r.random()
    if kind == 'rmact':
        op['u'] = r.randint(0, 10 ** 6)
    if kind == 'badact':
        op['an'] = r.randint(0, 10 ** 6)
    if kind == 'read':
        op['u'] = r.randint(0, 10 ** 6)
        op['what'] = [r.choice(READS) for _ in range(r.randint(1, 4))]
    elif kind == 'restore':
        op['how'] = r.pick((2, 'str'), (3, 'file'), (2, 'pickle'), (2, 'copy'))
    elif kind == 'set_fc':
        op['fc'] = gen_forecaster(r, o.get('yamlable', True), o.get('det_fc', False))
        if isinstance(op['fc'], dict):
            op['fc']['scalar'] = False
        op['H'] = r.pick((2, 1), (2, 3), (1, 4), (1, 7), (0.3, None))
        if isinstance(op['fc'], float):
            op['inc'], op['rel'] = r.chance(0.3), r.chance(0.3)
        if r.chance(0.4):
            op['only'] = r.randint(0, 9)
    elif kind == 'set_h':
        op['which'], op['H'] = r.randint(0, 9), r.pick((1, 0), (8, r.randint(1, 6)))
    elif kind == 'set_ts':
        op.update(which=r.randint(0, 9), u=r.randint(0, 10 ** 6), scale=r.pick((2, 1.0), (1, 3.0), (1, 0.2)), form=r.pick((3, 'array'), (1, 'list'), (1, 'frame')), neg=r.chance(0.3))
    elif kind == 'set_chg':
        op.update(which=r.randint(0, 9), u=r.pick((1, 0.0), (1, 1.0), (3, r.random())), soc=r.chance(0.5))
    elif kind == 'range':
        op['u'], op['v'] = r.random(), r.pick((1, 0.0), (1, 0.999), (2, r.random() * 0.999))
    elif kind == 'fault':
        op = dict(gen_run(r, dict(o, inrange=True)), op='fault')
        op['kind'] = r.pick((2, 'genset_cost'), (2, 'transition'), (2, 'forecaster'), (2, 'shaper'))
        op['nth'] = r.pick((3, 1), (2, 2), (1, 3), (1, 5))
        op['an'] = r.randint(0, 10 ** 6)
        op['exc'] = exc(r)
    elif kind == 'bad':
        op = dict(gen_run(r, dict(o, inrange=True)), op='bad', which=r.randint(0, 9))
        op['bad'] = r.pick((2, 'missing'), (2, 'short'), (1, 'junk'), (1, 'goal'))
        op['an'] = r.randint(0, 10 ** 6)
        op['g'] = r.pick((1, 1.5), (1, -0.2), (1, 2.0))
    return op


def gen_ops(r, weights, o, n):
    """Swarm style: each history uses a random subset of the operation kinds besides stepping."""
    kinds = [(w, k) for k, w in weights.items() if k == 'run' or r.chance(0.7)]
    ops = []
    for _ in range(n):
        op = gen_op(r, r.pick(*kinds), o)
        op['rs'] = r.randint(0, 2 ** 32 - 1)
        ops.append(op)
    return ops
