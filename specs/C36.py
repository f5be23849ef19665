from common import *
import pandas as pd
from pathlib import Path
from pymgrid.MicrogridGenerator import MicrogridGenerator

CASES = {'ob_outages': [{'k': 1}, {'k': 2}, {'k': 3}]}
DATA = {'load': [1.0, 4.0, 3.0], 'pv': [2.0, 0.0, 1.0], 'co2': [0.3, 0.1, 0.2]}


def folder():
    """a data folder with one file of each kind"""
    for k in ('load', 'pv', 'co2'):
        Path('/w/data/' + k).mkdir(parents=True, exist_ok=True)
        pd.DataFrame({'value of ' + k: DATA[k]}).to_csv('/w/data/' + k + '/one.csv', index=False)
    return '/w'


def generate(n=1):
    g = MicrogridGenerator(nb_microgrid=n, path=folder())
    g.timestep = 2920
    g.generate_microgrid(modular=False)
    check('number', len(g.microgrids), n)
    return g.microgrids[0]


def ob_architecture():
    m = generate()
    a = m.architecture
    check('components', (a['PV'], a['battery']), (1, 1))
    check_true('grid or generator', a['grid'] + a['genset'] >= 1)
    check_true('both or not', a['grid'] in (0, 1) and a['genset'] in (0, 1))
    if a['grid'] == 1:
        if m.parameters['grid_weak'].values[0] == 1:
            check('weak grid', a['genset'], 1)


def ob_sizes():
    m = generate()
    load = [m._load_ts.iloc[i, 0] for i in range(3)]
    pv = [m._pv_ts.iloc[i, 0] for i in range(3)]
    peak = load[1]
    check_true('peak load', 100 <= peak and peak <= 100000)
    check('load', load, [peak / 4, peak, peak * 3 / 4])
    check_true('pv', 0.3 * peak <= pv[0] and pv[0] <= 1.5 * peak)
    check('pv shape', pv, [pv[0], 0, pv[0] / 2])
    mean = peak * 2 / 3
    cap = m.battery.capacity
    check_true('capacity', 3 * mean <= cap and cap < 5 * mean + 1)
    check_true('charge', cap / 4 <= m.battery.p_charge_max and m.battery.p_charge_max < cap / 4 + 1)
    check('discharge', m.battery.p_discharge_max, m.battery.p_charge_max)
    check('range', (m.battery.soc_min, m.battery.soc_max, m.battery.efficiency), (0.2, 1, 0.9))
    check_true('soc', 0.2 <= m.battery.soc and m.battery.soc <= 1)
    if m.architecture['genset'] == 1:
        check_true('generator', 0.9 * m.genset.rated_power >= peak and 0.9 * m.genset.rated_power < peak + 0.9)
        check('loading', (m.genset.p_min, m.genset.p_max), (0.05, 0.9))
    if m.architecture['grid'] == 1:
        check('grid', (m.grid.power_import, m.grid.power_export), (2 * peak, 2 * peak))


def tariffs(h):
    """the two documented time-of-use tariffs"""
    return (0.59 if 12 <= h < 18 else (0.22 if h < 8 or h >= 21 else 0.29)), (0.08 if h < 5 or 14 <= h < 17 else 0.11)


def ob_grid():
    m = generate()
    if m.architecture['grid'] == 1:
        first = m._grid_price_import.iloc[0, 0] == 0.22
        for h in (0, 4, 5, 7, 8, 11, 12, 13, 14, 16, 17, 18, 20, 21, 23, 24, 36, 8759):
            a, b = tariffs(h % 24)
            check('import price', m._grid_price_import.iloc[h, 0], ite_(first, a, b))
            check('export price', m._grid_price_export.iloc[h, 0], 0)
        for i in range(3):
            s = m._grid_status_ts.iloc[i, 0]
            check_true('status', s == 0 or s == 1)
            if m.parameters['grid_weak'].values[0] == 0:
                check('available', s, 1)
            check('co2', m._grid_co2.iloc[i, 0], DATA['co2'][i])


def ob_start():
    """the state of a fresh microgrid is that of its first step"""
    m = generate()
    v = m.get_updated_values()
    check('load and pv', (m.load, m.pv), (m._load_ts.iloc[0, 0], m._pv_ts.iloc[0, 0]))
    check('charge', v['battery_soc'], m.battery.soc)
    if m.architecture['grid'] == 1:
        check('grid', (v['grid_status'], v['grid_co2'], v['grid_price_import'], v['grid_price_export']),
              (m._grid_status_ts.iloc[0, 0], m._grid_co2.iloc[0, 0], m._grid_price_import.iloc[0, 0], m._grid_price_export.iloc[0, 0]))


def ob_several():
    """every microgrid is one of its own"""
    g = MicrogridGenerator(nb_microgrid=2, path=folder())
    g.timestep = 2920
    g.generate_microgrid(modular=False)
    a, b = g.microgrids
    check('another', a is b, False)
    before = snapshot(b)
    a.run({'battery_charge': 0, 'battery_discharge': 0, 'grid_import': 0, 'grid_export': 0, 'genset': 0})
    check_same('untouched', before, snapshot(b))


def ob_outages(k):
    """an outage that begins after the first step lasts the duration asked for"""
    g = MicrogridGenerator(nb_microgrid=1, path=folder())
    out = g._generate_weak_grid_profile(num('rate', 0, 24), k * 2190, 4)
    s = [out.iloc[i, 0] for i in range(len(out))]
    check('steps', len(s), 5)
    for i in range(len(s)):
        check_true('binary', s[i] == 0 or s[i] == 1)
    for i in range(1, len(s) - k):
        if s[i] == 1:
            if s[i + 1] == 0:
                for j in range(1, k + 1):
                    check('outage', s[i + j], 0)


def ob_no_data():
    Path('/w/data/load').mkdir(parents=True, exist_ok=True)
    g = MicrogridGenerator(nb_microgrid=1, path='/w')
    check('refused', raised(g.generate_microgrid, exc='NameError'), True)
    check('kept', g.microgrids, [])
