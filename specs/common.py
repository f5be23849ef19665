"""Builders shared by the obligations: modules with unconstrained parameters, through the public constructors."""
import numpy as np
from pymgrid.modules.base import BaseMicrogridModule
from pymgrid.microgrid import Microgrid
from pymgrid.modules import (BatteryModule, GensetModule, GridModule, LoadModule, RenewableModule, UnbalancedEnergyModule)


def battery(tag='', raise_errors=False, soc=False, **kw):
    """a battery with arbitrary admissible parameters and an arbitrary admissible charge"""
    lo = num(tag + 'min_capacity', 0)
    span = num(tag + 'span', 0)
    cap = pos(tag + 'max_capacity')
    assume(lo <= cap)
    q = num(tag + 'charge', 0)
    assume(lo <= q)
    assume(q <= cap)
    eff = pos(tag + 'efficiency', 1)
    mc = num(tag + 'max_charge', 0)
    md = num(tag + 'max_discharge', 0)
    cost = num(tag + 'cycle_cost', 0)
    p = dict(min_capacity=lo, max_capacity=cap, max_charge=mc, max_discharge=md, efficiency=eff, battery_cost_cycle=cost,
             raise_errors=raise_errors)
    p.update(kw)
    if soc:
        m = BatteryModule(init_soc=q / cap, **p)
    else:
        m = BatteryModule(init_charge=q, **p)
    return m, q, p


def clock(tag=''):
    """a series length and a step inside it"""
    n = integer(tag + 'n', 2)
    t = integer(tag + 't', 0)
    assume(t < n - 1)
    return n, t


def load(tag='', n=None, t=None, **kw):
    s = series(tag + 'load_ts', n, None, 0)
    return LoadModule(time_series=s, initial_step=t, **kw), s


def renewable(tag='', n=None, t=None, **kw):
    s = series(tag + 'pv_ts', n, None, 0)
    return RenewableModule(time_series=s, initial_step=t, **kw), s


def grid(tag='', n=None, t=None, cols=4, **kw):
    s = series(tag + 'grid_ts', n, cols, 0)
    if cols == 4:
        assume(((s[:, 3] == 0) | (s[:, 3] == 1)).all())
    mi = num(tag + 'max_import', 0)
    me = num(tag + 'max_export', 0)
    cc = num(tag + 'co2_cost', 0)
    return GridModule(max_import=mi, max_export=me, time_series=s, initial_step=t, cost_per_unit_co2=cc, **kw), s, dict(
        max_import=mi, max_export=me, cost_per_unit_co2=cc)


def genset(tag='', cost=None, raise_errors=False, **kw):
    lo = num(tag + 'run_min', 0)
    hi = num(tag + 'run_max', 0)
    assume(lo <= hi)
    c = num(tag + 'fuel', 0) if cost is None else cost
    co2 = num(tag + 'co2', 0)
    cc = num(tag + 'co2c', 0)
    p = dict(running_min_production=lo, running_max_production=hi, genset_cost=c, co2_per_unit=co2, cost_per_unit_co2=cc, raise_errors=raise_errors)
    p.update(kw)
    return GensetModule(**p), p


class Probe(BaseMicrogridModule):
    """stand-in module: arbitrary limits, reward and termination; records what it is asked for"""
    module_type = ('probe', 'controllable')

    def __init__(self, tag, src=True, snk=True, raise_errors=False, journal=None, finished=False, inf=False, idle=False, final_step=None):
        self.tag = tag
        self.src, self.snk = src, snk
        self.journal = [] if journal is None else journal
        self.finished = finished
        if inf:
            self.lim_lo, self.lim_hi, self.lim_c = 0, np.inf, np.inf
        else:
            self.lim_lo = 0 if idle else num(tag + '.min_prod', 0)
            self.lim_hi = num(tag + '.max_prod', 0)
            self.lim_c = num(tag + '.max_cons', 0)
        self.level = num(tag + '.level', 0, 1)
        if final_step is not None:
            self.final_step = final_step
        super().__init__(raise_errors=raise_errors)

    def update(self, external_energy_change, as_source=False, as_sink=False):
        self.journal.append((self.tag, 'source' if as_source else 'sink', external_energy_change))
        reward = num(self.tag + '.rate') * external_energy_change
        return reward, self.finished, {'provided_energy' if as_source else 'absorbed_energy': external_energy_change}

    def _state_dict(self):
        return {'level': self.level}

    @property
    def min_obs(self):
        return np.array([0])

    @property
    def max_obs(self):
        return np.array([1])

    @property
    def min_act(self):
        return -10

    @property
    def max_act(self):
        return 10

    @property
    def min_production(self):
        return self.lim_lo

    @property
    def max_production(self):
        return self.lim_hi if self.src else NotImplemented

    @property
    def max_consumption(self):
        return self.lim_c if self.snk else NotImplemented

    @property
    def is_source(self):
        return self.src

    @property
    def is_sink(self):
        return self.snk

    @property
    def production_marginal_cost(self):
        return num(self.tag + '.pmc')

    @property
    def absorption_marginal_cost(self):
        return num(self.tag + '.amc')


class FlexProbe(Probe):
    module_type = ('flexprobe', 'flex')


class FixedProbe(Probe):
    """a fixed module: decides its amount itself"""
    module_type = ('fixedprobe', 'fixed')

    def update(self, external_energy_change, as_source=False, as_sink=False):
        v = num(self.tag + '.amount', 0)
        self.journal.append((self.tag, 'source' if as_source else 'sink', v))
        reward = num(self.tag + '.rate') * v
        return reward, self.finished, {'provided_energy' if as_source else 'absorbed_energy': v}


def probes(mix, final_step=1000):
    """list of named stand-in modules sharing one journal; mix: string like 'FS FK CB CB DS XS XK XB' (F fixed, C controllable, X flex; S source, K sink, B both)"""
    journal = []
    out = []
    for j, code in enumerate(mix.split()):
        cls = {'F': FixedProbe, 'C': Probe, 'X': FlexProbe, 'D': OtherProbe}[code[0]]
        role = code[1]
        out.append((code[:2], cls('%s%d' % (code, j), role in 'SB', role in 'KB', journal=journal, idle=code[0] == 'X', final_step=final_step if j == 0 else None)))
    return out


class OtherProbe(Probe):
    module_type = ('other', 'controllable')


def balancing(t=0):
    return UnbalancedEnergyModule(raise_errors=False, initial_step=t, loss_load_cost=num('llc', 0), overgeneration_cost=num('ogc', 0))
