from common import *
from pymgrid.utils.logger import ModularLogger

CASES = {
    'ob_probe': [{'sign': 1}, {'sign': -1}],
    'ob_battery': [{'sign': 1}, {'sign': -1}],
    'ob_grid': [{'sign': 1}, {'sign': -1}],
    'ob_lengths': [{'k': 3}],
}
THOROUGH = {'ob_lengths': [{'k': 6}]}


def ob_probe(sign):
    m = Probe('p')
    assume(m.min_production <= m.max_production)
    a = pos('a')
    before = m.state_dict()
    obs, reward, done, info = m.step(a * sign, normalized=False)
    check('log', m.log_dict(), {'level': [before['level']], 'reward': [reward], 'provided_energy': [info.get('provided_energy', 0)],
                                'absorbed_energy': [info.get('absorbed_energy', 0)]})
    b = pos('b')
    m.level = num('new level', 0, 1)
    obs, reward2, done, info2 = m.step(-b * sign, normalized=False)
    check('log after two steps', m.log_dict(), {
        'level': [before['level'], num('new level')], 'reward': [reward, reward2],
        'provided_energy': [info.get('provided_energy', 0), info2.get('provided_energy', 0)],
        'absorbed_energy': [info.get('absorbed_energy', 0), info2.get('absorbed_energy', 0)]})
    check('log frame', m.log.to_dict('list'), m.log_dict())
    check('last entry', m.logger_last, {k: v[-1] for k, v in m.log_dict().items()})
    m.reset()
    check('reset empties the log', m.log_dict(), {})
    check('length after reset', len(m.logger), 0)
    obs, reward3, done, info3 = m.step(b, normalized=False)
    check('log after reset and a step', (m.log_dict()['reward'], m.log_dict()['provided_energy']), ([reward3], [info3['provided_energy']]))


def ob_battery(sign):
    b, q, p = battery()
    a = pos('a')
    obs, reward, done, info = b.step(a * sign, normalized=False)
    e = info.get('provided_energy', 0)
    c = info.get('absorbed_energy', 0)
    check('log', b.log_dict(), {'soc': [q / p['max_capacity']], 'current_charge': [q], 'reward': [reward], 'discharge_amount': [e], 'charge_amount': [c]})
    q1 = b.current_charge
    obs, reward2, done, info2 = b.step(-a * sign, normalized=False)
    check('log after two steps', b.log_dict(), {
        'soc': [q / p['max_capacity'], q1 / p['max_capacity']], 'current_charge': [q, q1], 'reward': [reward, reward2],
        'discharge_amount': [e, info2.get('provided_energy', 0)], 'charge_amount': [c, info2.get('absorbed_energy', 0)]})


def ob_grid(sign):
    n, t = clock()
    m, s, p = grid(n=n, t=t)
    a = pos('a')
    obs, reward, done, info = m.step(a * sign, normalized=False)
    check('log', m.log_dict(), {
        'reward': [reward], 'grid_import': [info.get('provided_energy', 0)], 'grid_export': [info.get('absorbed_energy', 0)],
        'co2_production': [info['co2_production']], 'import_price_current': [s[t, 0]], 'export_price_current': [s[t, 1]],
        'co2_per_kwh_current': [s[t, 2]], 'grid_status_current': [s[t, 3]]})


def ob_genset():
    g, p = genset(start_up_time=1, wind_down_time=2, init_start_up=False)
    st = g.state_dict()
    check('state before', st, {'current_status': 0, 'goal_status': 0, 'steps_until_up': 1, 'steps_until_down': 0})
    obs, reward, done, info = g.step(np.array([1, num('a', 0)]), normalized=False)
    mid = g.state_dict()
    obs, reward2, done, info2 = g.step(np.array([1, num('b', 0)]), normalized=False)
    lg = g.log_dict()
    check('rewards', lg['reward'], [reward, reward2])
    check('production', lg['genset_production'], [info['provided_energy'], info2['provided_energy']])
    check('co2', lg['co2_production'], [info['co2_production'], info2['co2_production']])
    check('columns', sorted(lg.keys()), sorted(['reward', 'genset_production', 'co2_production', *st.keys()]))
    check('equal lengths', [len(v) for v in lg.values()], [2 for v in lg.values()])


def ob_load_and_renewable():
    n, t = clock()
    l, s = load(n=n, t=t)
    l.step(0.0, normalized=False)
    l.step(0.0, normalized=False)
    check('load log', l.log_dict(), {'reward': [0, 0], 'load_met': [s[t], s[t + 1]], 'load_current': [-s[t], -s[t + 1]]})
    r, s = renewable(n=n, t=t)
    a, b = num('a', 0), num('b', 0)
    r.step(a, normalized=False)
    r.step(b, normalized=False)
    u, v = min(a, s[t]), min(b, s[t + 1])
    check('renewable log', r.log_dict(), {'reward': [0, 0], 'renewable_used': [u, v], 'curtailment': [s[t] - u, s[t + 1] - v],
                                         'renewable_current': [s[t], s[t + 1]]})


def ob_balancing():
    u = UnbalancedEnergyModule(raise_errors=False, loss_load_cost=num('llc', 0), overgeneration_cost=num('ogc', 0))
    a = pos('a')
    u.step(a, normalized=False)
    u.step(-a, normalized=False)
    check('balancing log', u.log_dict(), {'reward': [-num('llc') * a, -num('ogc') * a], 'loss_load': [a, 0], 'overgeneration': [0, a]})


def ob_names():
    """the energies appear under the module's own names"""
    n, t = clock()
    r, s = renewable(n=n, t=t, provided_energy_name='pv_used')
    r.step(num('a', 0), normalized=False)
    check('renewable', sorted(r.log_dict().keys()), sorted(['reward', 'pv_used', 'curtailment', 'renewable_current']))
    g, p = genset(provided_energy_name='diesel')
    g.step(np.array([1, num('a', 0)]), normalized=False)
    check('diesel', g.log_dict()['diesel'], [ite_(num('a') > p['running_max_production'], p['running_max_production'],
                                                 ite_(num('a') < p['running_min_production'], p['running_min_production'], num('a')))])


def ob_late_column():
    """a column appearing later is padded at the front"""
    lg = ModularLogger()
    a, b, c, d = num('a'), num('b'), num('c'), num('d')
    lg.log(x=a)
    lg.log(x=b)
    lg.log(x=c, y=d)
    got = lg.to_dict()
    check('old column', got['x'], [a, b, c])
    check('new column', got['y'][2], d)
    check('equal lengths', [len(got['x']), len(got['y']), len(lg)], [3, 3, 3])
    check_true('padding is not a number', np.isnan(got['y'][0]) and np.isnan(got['y'][1]))
    lg.log(x=1, y=2)
    check('equal lengths later', [len(v) for v in lg.to_dict().values()], [4, 4])
    flushed = lg.flush()
    check('flush hands out the entries', flushed['x'], [a, b, c, 1])
    check('flush empties', (lg.to_dict(), len(lg)), ({}, 0))
    lg.log(z=a)
    check('after flush', lg.to_dict(), {'z': [a]})


def ob_lengths(k):
    b, q, p = battery()
    for j in range(k):
        b.step(0.0, normalized=False)
        check('length after %d steps' % (j + 1), [len(v) for v in b.log_dict().values()], [j + 1 for v in b.log_dict()])
    b.reset()
    check('empty', b.log_dict(), {})


def ob_frames():
    """the frame and the dictionary show the steps since the last reset, whenever they are asked for"""
    b, q, p = battery()
    b.step(0.0, normalized=False)
    check('frame', b.log['current_charge'].to_list(), [q])
    b.reset()
    x = num('x')
    assume(x < 0)
    b.step(x, normalized=False)
    after = b.state_dict()['current_charge']
    b.step(0.0, normalized=False)
    check('dictionary', b.log_dict()['current_charge'], [b.log_dict()['current_charge'][0], after])
    b.reset()
    b.step(0.0, normalized=False)
    b.step(x, normalized=False)
    b.log_frame()
    b.reset()
    b.step(x, normalized=False)
    b.step(0.0, normalized=False)
    d = b.log_dict()['charge_amount']
    check('frame of another episode of the same length', b.log_frame()['charge_amount'].to_list(), d)
