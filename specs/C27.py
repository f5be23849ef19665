from common import *
import pandas as pd
from pymgrid.convert.convert import to_modular, to_nonmodular
from pymgrid._deprecated.non_modular_microgrid import NonModularMicrogrid

N = 3
CASES = {
    'ob_to_nonmodular': [{'mix': 'BIG'}, {'mix': 'BI'}, {'mix': 'BG'}, {'mix': 'IG'}, {'mix': 'B'}, {'mix': 'G'}, {'mix': 'I'}, {'mix': ''}],
    'ob_to_modular': [{'mix': 'BIG'}, {'mix': 'BI'}, {'mix': 'BG'}, {'mix': 'I'}, {'mix': 'B'}],
    'ob_there_and_back': [{'mix': 'BIG'}, {'mix': 'BI'}, {'mix': 'BG'}],
    'ob_runs': [{'mix': 'BI'}, {'mix': 'G'}, {'mix': ''}],
    'ob_refused': [{'what': 'two loads'}, {'what': 'two loads, named'}, {'what': 'two batteries'}, {'what': 'two pvs'}, {'what': 'no load'}, {'what': 'no pv'}, {'what': 'unknown'}],
    'ob_controls': [{'mix': 'BIG'}, {'mix': 'B'}, {'mix': 'I'}, {'mix': ''}],
    'ob_order': [{'flip': False}, {'flip': True}],
}


def modules(mix, sign=1, horizon=0, named=False, cols=4):
    """load, pv and the components of mix (B battery, I grid, G generator) with unknown parameters"""
    f = {'forecaster': 'oracle', 'forecast_horizon': horizon} if horizon else {}
    cc = num('cc', 0)
    d = {'load': vector('load', N, lo=0), 'pv': vector('pv', N, lo=0), 'cc': cc}
    out = [('load', LoadModule(time_series=sign * d['load'], **f)), ('pv', RenewableModule(time_series=d['pv'], **f))]
    if 'B' in mix:
        m, q, p = battery()
        d['battery'] = p
        d['charge'] = q
        out.append(('battery', m))
    if 'G' in mix:
        lo, hi = num('run_min', 0), pos('run_max')
        assume(lo <= hi)
        d['genset'] = dict(lo=lo, hi=hi, cost=num('fuel', 0), co2=num('gco2', 0))
        out.append(('genset', GensetModule(running_min_production=lo, running_max_production=hi, genset_cost=d['genset']['cost'], co2_per_unit=d['genset']['co2'],
                                           cost_per_unit_co2=cc)))
    if 'I' in mix:
        g = vector('g', N, cols, lo=0)
        if cols == 4:
            assume(((g[:, 3] == 0) | (g[:, 3] == 1)).all())
        d['grid'] = dict(series=g, max_import=num('mi', 0), max_export=num('me', 0))
        out.append(('grid', GridModule(max_import=d['grid']['max_import'], max_export=d['grid']['max_export'], time_series=g, cost_per_unit_co2=cc, **f)))
    return out, d


def modular(mix, **kw):
    mods, d = modules(mix, **kw)
    d['llc'], d['ogc'] = num('llc', 0), num('ogc')
    return Microgrid(mods, loss_load_cost=d['llc'], overgeneration_cost=d['ogc']), d


def par(n, name):
    return n.parameters[name].values[0]


def column(frame):
    return list(frame.values.flatten())


def carried(label, n, d, mix):
    """the non-modular microgrid n has the parameters d"""
    check(label + ': components', (bool(n.architecture['PV']), bool(n.architecture['battery']), bool(n.architecture['genset']), bool(n.architecture['grid'])),
          (True, 'B' in mix, 'G' in mix, 'I' in mix))
    check(label + ': load', column(n._load_ts), list(d['load']))
    check(label + ': pv', column(n._pv_ts), list(d['pv']))
    check(label + ': first load', n.load, d['load'][0])
    check(label + ': first pv', n.pv, d['pv'][0])
    check(label + ': unmet demand', par(n, 'cost_loss_load'), d['llc'])
    check(label + ': overgeneration', par(n, 'cost_overgeneration'), d['ogc'])
    if 'B' in mix:
        p, cap = d['battery'], d['battery']['max_capacity']
        check(label + ': capacity', (n.battery.capacity, par(n, 'battery_capacity')), (cap, cap))
        check(label + ': charge limit', (n.battery.p_charge_max, par(n, 'battery_power_charge')), (p['max_charge'], p['max_charge']))
        check(label + ': discharge limit', (n.battery.p_discharge_max, par(n, 'battery_power_discharge')), (p['max_discharge'], p['max_discharge']))
        check(label + ': efficiency', (n.battery.efficiency, par(n, 'battery_efficiency')), (p['efficiency'], p['efficiency']))
        check(label + ': cycle cost', (n.battery.cost_cycle, par(n, 'battery_cost_cycle')), (p['battery_cost_cycle'], p['battery_cost_cycle']))
        check(label + ': state of charge', (n.battery.soc, n.get_updated_values()['battery_soc']), (d['charge'] / cap, d['charge'] / cap))
        check(label + ': lowest state of charge', (n.battery.soc_min, par(n, 'battery_soc_min')), (p['min_capacity'] / cap, p['min_capacity'] / cap))
        check(label + ': highest state of charge', (n.battery.soc_max, par(n, 'battery_soc_max')), (1, 1))
    if 'G' in mix:
        g = d['genset']
        check(label + ': generator minimum', n.genset.p_min * n.genset.rated_power, g['lo'])
        check(label + ': generator maximum', n.genset.p_max * n.genset.rated_power, g['hi'])
        check(label + ': generator parameters', (par(n, 'genset_pmin') * par(n, 'genset_rated_power'), par(n, 'genset_pmax') * par(n, 'genset_rated_power')), (g['lo'], g['hi']))
        check(label + ': fuel cost', (n.genset.fuel_cost, par(n, 'fuel_cost')), (g['cost'], g['cost']))
        check(label + ': generator emissions', (n.genset.co2, par(n, 'genset_co2')), (g['co2'], g['co2']))
    if 'I' in mix:
        g, s = d['grid'], d['grid']['series']
        check(label + ': import limit', (n.grid.power_import, par(n, 'grid_power_import')), (g['max_import'], g['max_import']))
        check(label + ': export limit', (n.grid.power_export, par(n, 'grid_power_export')), (g['max_export'], g['max_export']))
        check(label + ': import price', column(n._grid_price_import), list(s[:, 0]))
        check(label + ': export price', column(n._grid_price_export), list(s[:, 1]))
        check(label + ': grid emissions', column(n._grid_co2), list(s[:, 2]))
        check(label + ': status', column(n._grid_status_ts), list(s[:, 3]))
        check(label + ': grid now', (n.grid.price_import, n.grid.price_export, n.grid.co2, n.grid.status), (s[0, 0], s[0, 1], s[0, 2], s[0, 3]))
    if 'I' in mix or 'G' in mix:
        check(label + ': carbon cost', par(n, 'cost_co2'), d['cc'])


def only(m, cls):
    found = [x for x in m.modules.iterlist() if isinstance(x, cls)]
    return found[0] if len(found) == 1 else None


def rebuilt(label, m, d, mix):
    """the modular microgrid m has the parameters d"""
    kinds = [type(x).__name__ for x in m.modules.iterlist()]
    want = ['LoadModule', 'RenewableModule', 'UnbalancedEnergyModule'] + ['BatteryModule'] * ('B' in mix) + ['GensetModule'] * ('G' in mix) + ['GridModule'] * ('I' in mix)
    check(label + ': components', sorted(kinds), sorted(want))
    ld, pv, ub = only(m, LoadModule), only(m, RenewableModule), only(m, UnbalancedEnergyModule)
    check(label + ': load', list((-1 * ld.time_series).flatten()), list(d['load']))
    check(label + ': pv', list(pv.time_series.flatten()), list(d['pv']))
    check(label + ': unmet demand', ub.loss_load_cost, d['llc'])
    check(label + ': overgeneration', ub.overgeneration_cost, d['ogc'])
    if 'B' in mix:
        b, p = only(m, BatteryModule), d['battery']
        for k in ('min_capacity', 'max_capacity', 'max_charge', 'max_discharge', 'efficiency', 'battery_cost_cycle'):
            check(label + ': battery ' + k, getattr(b, k), p[k])
        check(label + ': charge', b.current_charge, d['charge'])
    if 'G' in mix:
        g, p = only(m, GensetModule), d['genset']
        check(label + ': generator', (g.running_min_production, g.running_max_production, g.genset_cost, g.co2_per_unit, g.cost_per_unit_co2),
              (p['lo'], p['hi'], p['cost'], p['co2'], d['cc']))
    if 'I' in mix:
        g, p = only(m, GridModule), d['grid']
        check(label + ': grid limits', (g.max_import, g.max_export, g.cost_per_unit_co2), (p['max_import'], p['max_export'], d['cc']))
        check(label + ': grid series', g.time_series, p['series'])


def ob_to_nonmodular(mix):
    m, d = modular(mix)
    n = m.to_nonmodular()
    carried('converted', n, d, mix)
    if 'I' in mix:
        check('weak grid', bool(par(n, 'grid_weak')), bool((d['grid']['series'][:, 3] == 0).any()))


def ob_negative_load():
    m, d = modular('B', sign=-1)
    carried('converted', m.to_nonmodular(), d, 'B')
    carried('converted', NonModularMicrogrid.from_modular(m), d, 'B')


def ob_three_columns():
    """a grid that is always available"""
    m, d = modular('I', cols=3)
    n = m.to_nonmodular()
    check('status', column(n._grid_status_ts), [1] * N)
    check('import price', column(n._grid_price_import), list(d['grid']['series'][:, 0]))
    check('export price', column(n._grid_price_export), list(d['grid']['series'][:, 1]))
    check('grid emissions', column(n._grid_co2), list(d['grid']['series'][:, 2]))


def ob_horizon():
    m, d = modular('BI', horizon=2)
    n = m.to_nonmodular()
    check('horizon', n.horizon, 3)
    b = n.to_modular()
    check('back', b.get_forecast_horizon(), 2)


def ob_long_horizon():
    m, d = modular('I', horizon=30)
    n = m.to_nonmodular()
    check('horizon', n.horizon, 31)
    b = n.to_modular()
    check('back', [x.forecast_horizon for x in b.modules.iterlist() if isinstance(x, (LoadModule, RenewableModule, GridModule))], [30, 30, 30])


def ob_room():
    """the room left in the battery, as the non-modular microgrid shows it (one digit)"""
    b = BatteryModule(min_capacity=12.0, max_capacity=100.0, max_charge=30.0, max_discharge=20.0, efficiency=0.5, init_charge=45.0)
    m = Microgrid([LoadModule(time_series=vector('load', N, lo=0)), RenewableModule(time_series=vector('pv', N, lo=0)), b])
    n = m.to_nonmodular()
    v = n.get_updated_values()
    check('room to charge', (n.battery.capa_to_charge, v['capa_to_charge']), (110.0, 110.0))
    check('energy to discharge', (n.battery.capa_to_discharge, v['capa_to_discharge']), (16.5, 16.5))


def ob_controls(mix):
    """the list of controls"""
    n = modular(mix)[0].to_nonmodular()
    want = ['load', 'pv_consummed', 'pv_curtailed', 'pv']
    if 'B' in mix:
        want += ['battery_charge', 'battery_discharge']
    if 'I' in mix:
        want += ['grid_import', 'grid_export']
    if 'G' in mix:
        want += ['genset']
    check('controls', sorted(n.control_dict if isinstance(n.control_dict, list) else list(n.control_dict)), sorted(want))


def ob_current_charge():
    """the charge at the time of the conversion counts"""
    m, d = modular('B')
    m.run({'battery': -num('x', 0)}, normalized=False)
    soc = m.modules['battery'][0].soc
    n = m.to_nonmodular()
    check('state of charge', (n.battery.soc, n.get_updated_values()['battery_soc']), (soc, soc))


def ob_current_soc():
    """... also in the other direction"""
    n, d = nonmodular('B')
    v = num('soc now', 0, 1)
    n.battery.soc = v
    b = n.to_modular().modules['battery'][0]
    check('state of charge', (b.soc, b.current_charge), (v, v * n.battery.capacity))


def ob_order(flip):
    """the order of the modules does not matter"""
    mods, d = modules('BIG')
    d['llc'], d['ogc'] = num('llc', 0), num('ogc')
    mods = mods + [('balancing', UnbalancedEnergyModule(raise_errors=False, loss_load_cost=d['llc'], overgeneration_cost=d['ogc']))]
    mods = [('my ' + k, v) for k, v in (mods[::-1] if flip else mods)]
    carried('converted', Microgrid(mods, add_unbalanced_module=False).to_nonmodular(), d, 'BIG')


def nonmodular(mix):
    """a non-modular microgrid, described by its parameter dictionary"""
    P = {'load': num('rated_load', 0), 'PV_rated_power': num('rated_pv', 0), 'cost_loss_load': num('llc', 0), 'cost_overgeneration': num('ogc'), 'cost_co2': num('cc', 0)}
    d = {'load': vector('load', N, lo=0), 'pv': vector('pv', N, lo=0), 'llc': P['cost_loss_load'], 'ogc': P['cost_overgeneration'], 'cc': P['cost_co2']}
    status = {'load': [d['load'][0]], 'pv': [d['pv'][0]], 'hour': [0]}
    if 'B' in mix:
        soc, low, cap = num('soc', 0, 1), num('low', 0, 1), pos('capacity')
        assume(low <= soc)
        P.update(battery_soc_0=soc, battery_soc_min=low, battery_soc_max=1, battery_capacity=cap, battery_power_charge=num('pc', 0), battery_power_discharge=num('pd', 0),
                 battery_efficiency=pos('eff', 1), battery_cost_cycle=num('cycle', 0))
        d['battery'] = dict(min_capacity=low * cap, max_capacity=cap, max_charge=P['battery_power_charge'], max_discharge=P['battery_power_discharge'],
                            efficiency=P['battery_efficiency'], battery_cost_cycle=P['battery_cost_cycle'])
        d['charge'] = soc * cap
        status.update(battery_soc=[soc], capa_to_charge=[num('ctc', 0)], capa_to_discharge=[num('ctd', 0)])
    if 'G' in mix:
        lo, hi, rated = num('pmin', 0, 1), pos('pmax', 1), pos('rated')
        assume(lo <= hi)
        P.update(genset_rated_power=rated, genset_pmin=lo, genset_pmax=hi, fuel_cost=num('fuel', 0), genset_co2=num('gco2', 0))
        d['genset'] = dict(lo=lo * rated, hi=hi * rated, cost=P['fuel_cost'], co2=P['genset_co2'])
    data = {}
    if 'I' in mix:
        g = vector('g', N, 4, lo=0)
        assume(((g[:, 3] == 0) | (g[:, 3] == 1)).all())
        P.update(grid_power_import=num('mi', 0), grid_power_export=num('me', 0), grid_weak=0)
        d['grid'] = dict(series=g, max_import=P['grid_power_import'], max_export=P['grid_power_export'])
        for j, k in enumerate(('grid_price_import', 'grid_price_export', 'grid_co2', 'grid_ts')):
            data[k] = pd.DataFrame(g[:, j])
            status['grid_status' if k == 'grid_ts' else k] = [g[0, j]]
    n = NonModularMicrogrid(dict(parameters=pd.DataFrame({k: [v] for k, v in P.items()}),
                                 architecture={'PV': 1, 'battery': int('B' in mix), 'genset': int('G' in mix), 'grid': int('I' in mix)},
                                 load=pd.DataFrame(d['load']), pv=pd.DataFrame(d['pv']), df_actions={}, df_status=status, df_actual_generation={}, df_cost={},
                                 df_co2={'co2': []}, control_dict=[], **data), horizon=2)
    return n, d


def ob_to_modular(mix):
    n, d = nonmodular(mix)
    rebuilt('converted', n.to_modular(), d, mix)
    rebuilt('converted', Microgrid.from_nonmodular(n), d, mix)
    carried('kept', n, d, mix)


def ob_there_and_back(mix):
    m, d = modular(mix)
    rebuilt('back', m.to_nonmodular().to_modular(), d, mix)


def ob_runs(mix):
    """a converted microgrid can be run"""
    m, d = modular(mix)
    n = m.to_nonmodular()
    c = {}
    if 'B' in mix:
        c.update(battery_charge=0, battery_discharge=0)
    if 'I' in mix:
        c.update(grid_import=0, grid_export=0)
    if 'G' in mix:
        c.update(genset=0)
    v = n.run(c)
    check('next', (v['load'], v['pv']), (d['load'][1], d['pv'][1]))
    short = d['load'][0] - d['pv'][0]
    check('cost of unmet demand', ite_(short >= 0.001, n.get_cost(), 0), ite_(short >= 0.001, short * d['llc'], 0))


def ob_refused(what):
    mods, d = modules('B')
    ld, pv, b = mods
    extra = LoadModule(time_series=vector('load2', N, lo=0))
    m = Microgrid({'two loads': [ld[1], extra, pv[1]], 'two loads, named': [('a', ld[1]), ('b', extra), pv[1]], 'two batteries': [ld[1], pv[1], ('b', b[1]), ('c', battery('x')[0])],
                   'two pvs': [ld[1], ('p', pv[1]), ('q', RenewableModule(time_series=vector('pv2', N, lo=0)))], 'no load': [pv[1], b[1]], 'no pv': [ld[1], b[1]],
                   'unknown': [ld[1], pv[1], ('probe', Probe('p'))]}[what])
    check('refused', outcome(m.to_nonmodular)[0], 'raise')


def ob_original_kept():
    m, d = modular('BIG')
    before = snapshot(m)
    m.to_nonmodular()
    check_same('microgrid', before, snapshot(m))


def ob_other_kept():
    n, d = nonmodular('BIG')
    before = snapshot(n)
    n.to_modular()
    check_same('microgrid', before, snapshot(n))
