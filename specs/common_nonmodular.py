from common import *
import pandas as pd
from pymgrid._deprecated.non_modular_microgrid import NonModularMicrogrid

N = 5


def frame(v):
    return pd.DataFrame(v)


def build(mix, horizon=1, roomy=False, fixed=None, **given):
    """a microgrid with pv and the components of mix (B battery, I grid, G generator); every parameter is unknown"""
    P, data = {}, {}
    P['load'] = num('rated_load', 0)
    P['PV_rated_power'] = num('rated_pv', 0)
    P['cost_loss_load'] = num('loss_cost', 0)
    P['cost_overgeneration'] = num('over_cost', 0)
    P['cost_co2'] = num('co2_cost', 0)
    actions = ['load', 'pv', 'pv_consummed', 'pv_curtailed']
    status = {'load': [0.0], 'hour': [0], 'pv': [0.0]}
    production = ['loss_load', 'overgeneration', 'pv_consummed', 'pv_curtailed']
    cost = ['loss_load', 'overgeneration', 'co2', 'total_cost']
    data['load'] = vector('load', N, lo=0)
    data['pv'] = vector('pv', N, lo=0)
    data.update(given)
    if 'B' in mix:
        P['battery_soc_0'] = num('soc0', 0, 1)
        P['battery_soc_min'] = num('soc_min', 0, 1)
        P['battery_soc_max'] = num('soc_max', 0, 1)
        assume(P['battery_soc_min'] <= P['battery_soc_0'])
        assume(P['battery_soc_0'] <= P['battery_soc_max'])
        P['battery_power_charge'] = num('power_charge', 0)
        P['battery_power_discharge'] = num('power_discharge', 0)
        P['battery_capacity'] = pos('capacity')
        P['battery_efficiency'] = pos('efficiency', 1)
        P['battery_cost_cycle'] = num('cycle', 0)
        if roomy:
            P.update(battery_soc_0=0.5, battery_soc_min=0, battery_soc_max=1, battery_power_charge=10, battery_power_discharge=10, battery_capacity=100,
                     battery_efficiency=0.5)
        P.update({k: v for k, v in (fixed or {}).items() if k.startswith('battery')})
        status['battery_soc'] = [P['battery_soc_0']]
        status['capa_to_charge'] = [num('ctc', 0)]
        status['capa_to_discharge'] = [num('ctd', 0)]
        actions += ['battery_charge', 'battery_discharge']
        production += ['battery_charge', 'battery_discharge']
        cost += ['battery']
    if 'G' in mix:
        P['genset_rated_power'] = pos('rated')
        P['genset_pmin'] = num('pmin', 0, 1)
        P['genset_pmax'] = num('pmax', 0, 1)
        assume(P['genset_pmin'] <= P['genset_pmax'])
        P['fuel_cost'] = num('fuel', 0)
        P['genset_co2'] = num('gco2', 0)
        if roomy == 2:
            P.update(genset_rated_power=10, genset_pmin=0.2, genset_pmax=1)
        P.update({k: v for k, v in (fixed or {}).items() if k.startswith('genset')})
        actions += ['genset']
        production += ['genset']
        cost += ['genset']
    if 'I' in mix:
        P['grid_power_import'] = num('max_import', 0)
        P['grid_power_export'] = num('max_export', 0)
        P['grid_weak'] = 0
        for k in ('grid_ts', 'grid_price_import', 'grid_price_export', 'grid_co2'):
            data[k] = given[k] if k in given else vector(k, N, lo=0)
        status.update({'grid_status': [data['grid_ts'][0]], 'grid_price_import': [data['grid_price_import'][0]],
                       'grid_price_export': [data['grid_price_export'][0]], 'grid_co2': [data['grid_co2'][0]]})
        if roomy == 2:
            P.update(grid_power_import=10, grid_power_export=10)
        actions += ['grid_import', 'grid_export']
        production += ['grid_import', 'grid_export']
        cost += ['grid_import', 'grid_export']
    status['load'], status['pv'] = [data['load'][0]], [data['pv'][0]]
    par = {'parameters': pd.DataFrame({k: [v] for k, v in P.items()}),
           'architecture': {'PV': 1, 'battery': int('B' in mix), 'genset': int('G' in mix), 'grid': int('I' in mix)},
           'df_actions': {k: [] for k in actions}, 'df_status': status, 'df_actual_generation': {k: [] for k in production},
           'df_cost': {k: [] for k in cost}, 'df_co2': {'co2': []}, 'control_dict': actions}
    par.update({k: frame(v) for k, v in data.items()})
    return NonModularMicrogrid(par, horizon=horizon), P, data


def clip(x, lo, hi):
    return min(max(x, lo), hi)


def expected(mix, P, data, c, soc, k):
    """what a step at time k has to produce"""
    e = {}
    sinks, sources = data['load'][k], 0.0
    if 'B' in mix:
        cap, eff = P['battery_capacity'], P['battery_efficiency']
        room = max((P['battery_soc_max'] - soc) * cap * eff, 0)
        stored = max((soc - P['battery_soc_min']) * cap * eff, 0)
        e['battery_charge'] = clip(c['battery_charge'], 0, min(P['battery_power_charge'], room))
        e['battery_discharge'] = clip(c['battery_discharge'], 0, min(P['battery_power_discharge'], stored))
        sinks, sources = sinks + e['battery_charge'], sources + e['battery_discharge']
    if 'I' in mix:
        e['grid_import'] = clip(c['grid_import'], 0, P['grid_power_import'])
        e['grid_export'] = clip(c['grid_export'], 0, P['grid_power_export'])
        sinks, sources = sinks + e['grid_export'], sources + e['grid_import']
    if 'G' in mix:
        lo, hi = P['genset_rated_power'] * P['genset_pmin'], P['genset_rated_power'] * P['genset_pmax']
        e['genset'] = ite_(c['genset'] == 0, 0, clip(c['genset'], lo, hi))
        sources = sources + e['genset']
    return e, sinks - sources


def costs(mix, P, data, p, k):
    """cost entries of the actual production p at time k"""
    out = {'loss_load': p['loss_load'] * P['cost_loss_load'], 'overgeneration': p['overgeneration'] * P['cost_overgeneration']}
    co2 = 0
    if 'G' in mix:
        out['genset'] = p['genset'] * P['fuel_cost']
        co2 = co2 + p['genset'] * P['genset_co2']
    if 'I' in mix:
        out['grid_import'] = data['grid_price_import'][k] * p['grid_import']
        out['grid_export'] = -data['grid_price_export'][k] * p['grid_export']
        co2 = co2 + data['grid_co2'][k] * p['grid_import']
    if 'B' in mix:
        out['battery'] = (p['battery_charge'] + p['battery_discharge']) * P['battery_cost_cycle']
    out['co2'] = co2 * P['cost_co2']
    total = 0
    for v in out.values():
        total = total + v
    out['total_cost'] = total
    return out, co2


def last(records):
    return {k: v[-1] for k, v in records.items()}
