"""User-supplied callables handed to the library, with a fault switch owned by the simulator.

All are plain picklable objects; whether a call fails is decided by the plan (kind, n-th call), never by chance.
"""


class InjectedFault(Exception):
    pass


class InjectedCrash(BaseException):
    """Stands for the process being interrupted; not an Exception, so nothing may swallow it."""


class Switch:
    """Counts calls per kind and raises at the armed one."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.calls = {}
        self.armed = None
        self.fired = []

    def arm(self, kind, nth, exc='fault'):
        self.armed = (kind, self.calls.get(kind, 0) + nth, exc)

    def disarm(self):
        self.armed = None

    def hit(self, kind):
        n = self.calls[kind] = self.calls.get(kind, 0) + 1
        if self.armed is not None and self.armed[0] == kind and self.armed[1] == n:
            exc = self.armed[2]
            self.armed = None
            self.fired.append(kind)
            raise INJECTED[exc](kind)


# failures of kinds that library code might be tempted to swallow
INJECTED = dict(fault=InjectedFault, crash=InjectedCrash)
for _name, _base in dict(attr=AttributeError, value=ValueError, type=TypeError, key=KeyError, index=IndexError, runtime=RuntimeError,
                         zero=ZeroDivisionError, asrt=AssertionError, notimpl=NotImplementedError, os=OSError, memory=MemoryError,
                         stop=StopIteration, recursion=RecursionError, lookup=LookupError).items():
    INJECTED[_name] = type('Injected' + _base.__name__, (InjectedFault, _base), {})
ORDINARY = ['value', 'type', 'key', 'index', 'runtime', 'zero', 'asrt', 'notimpl', 'os', 'memory', 'stop', 'recursion', 'lookup']


SWITCH = Switch()


class GensetCost:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __call__(self, x):
        SWITCH.hit('genset_cost')
        return self.a * x + self.b * x * x

    def __eq__(self, o):
        return type(self) is type(o) and self.__dict__ == o.__dict__


class Transition:
    """Extra loss on charging, by a factor and by the state of the battery as it is told; discharging as by default."""

    def __init__(self, k, s=0.0):
        self.k, self.s = k, s

    def __call__(self, external_energy_change, efficiency, **kwargs):
        SWITCH.hit('transition')
        if external_energy_change < 0:
            return external_energy_change / efficiency
        return external_energy_change * efficiency * self.k * self.share(efficiency=efficiency, **kwargs)

    def share(self, min_capacity, max_capacity, max_charge, max_discharge, efficiency, max_production, max_consumption, state_dict, **kwargs):
        if not self.s:
            return 1.0
        return 1 - self.s * (0.2 * state_dict['soc'] + 0.2 * (state_dict['current_charge'] - min_capacity) / (max_capacity - min_capacity)
                             + 0.1 * max_consumption * efficiency / (max_charge or 1) + 0.1 * max_production / efficiency / (max_discharge or 1))

    def __eq__(self, o):
        return type(self) is type(o) and self.__dict__ == o.__dict__


class Forecast:
    """Vectorised user forecaster: (k times the truth + c times the current value) / (1 + g n); may compute it in the arrays it was given."""

    def __init__(self, k, inplace=False, form='array', c=0.0, g=0.0):
        self.k, self.inplace, self.form, self.c, self.g = k, inplace, form, c, g

    def __call__(self, val_c, val_c_n, n):
        SWITCH.hit('forecaster')
        if self.form != 'array' and getattr(val_c_n, 'ndim', 0):
            out = self.value(val_c, val_c_n, n)
            return out.tolist() if self.form == 'list' else out.reshape(-1)
        if self.inplace:
            out = self.value(val_c, val_c_n, n)
            val_c *= 3
            if val_c_n.dtype.kind != 'f':
                return out
            val_c_n[...] = out
            return val_c_n
        return self.value(val_c, val_c_n, n)

    def value(self, val_c, val_c_n, n):
        return (self.k * val_c_n + self.c * val_c) / (1 + self.g * n)

    def __eq__(self, o):
        return type(self) is type(o) and self.__dict__ == o.__dict__


class ScalarForecast(Forecast):
    """Scalar user forecaster (cannot be called with vectors)."""

    def __call__(self, val_c, val_c_n, n):
        SWITCH.hit('forecaster')
        if getattr(val_c_n, 'ndim', 0) > 1:
            raise ValueError('scalars only')
        return self.value(val_c, val_c_n, n)


class Shaper:
    """A reward that depends on all of the step information and on the marginal costs."""

    def __init__(self, c):
        self.c = c

    def __call__(self, step_info, cost_info):
        SWITCH.hit('shaper')
        s = 0.0
        for name in sorted(step_info):
            for i, d in enumerate(step_info[name]):
                s += (i + 1) * (d.get('provided_energy', 0.0) - self.c * d.get('absorbed_energy', 0.0))
                s += 0.25 * d.get('curtailment', 0.0)
        for name in sorted(cost_info):
            for i, d in enumerate(cost_info[name]):
                s += 0.01 * (i + 1) * d['production_marginal_cost'] - 0.02 * d['absorption_marginal_cost']
        return float(s)

    def __eq__(self, o):
        return type(self) is type(o) and self.__dict__ == o.__dict__


class TableTrajectory:
    def __init__(self, table):
        self.table, self.k = [tuple(x) for x in table], 0

    def __call__(self, initial_step, final_step):
        SWITCH.hit('trajectory')
        r = self.table[self.k % len(self.table)]
        self.k += 1
        return r

    def __eq__(self, o):
        return type(self) is type(o) and self.table == o.table
