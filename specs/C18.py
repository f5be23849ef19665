from common import *

CASES = {
    'ob_module': [{'kind': 'battery'}, {'kind': 'genset'}, {'kind': 'grid'}, {'kind': 'load'}, {'kind': 'pv'}, {'kind': 'balancing'},
                  {'kind': 'grid', 'h': 2}, {'kind': 'load', 'h': 3}, {'kind': 'pv', 'h': 1}],
    'ob_step': [{'kind': 'battery'}, {'kind': 'genset'}, {'kind': 'grid'}, {'kind': 'load'}, {'kind': 'pv'}, {'kind': 'grid', 'h': 1}, {'kind': 'load', 'h': 2}],
    'ob_reset': [{'kind': 'battery'}, {'kind': 'genset'}, {'kind': 'grid'}, {'kind': 'load'}, {'kind': 'pv', 'h': 2}],
    'ob_end': [{'kind': 'grid'}, {'kind': 'load'}, {'kind': 'pv', 'h': 2}],
    'ob_names': [{'kind': 'grid', 'h': 2}, {'kind': 'load', 'h': 1}, {'kind': 'pv', 'h': 0}],
    'ob_microgrid': [{'normalized': False}, {'normalized': True}],
}
THOROUGH = {'ob_module': [{'kind': 'grid', 'h': 4}, {'kind': 'pv', 'h': 5}], 'ob_step': [{'kind': 'grid', 'h': 3}]}


def mk(kind, h=0, t=None, n=None, **kw):
    if kind == 'battery':
        return battery()[0]
    if kind == 'genset':
        u, d = integer('up', 0), integer('down', 0)
        return genset(start_up_time=u, wind_down_time=d, **kw)[0]
    if kind == 'balancing':
        return balancing(0)
    if n is None:
        n, t = clock()
    if h:
        kw = dict(kw, forecaster='oracle', forecast_horizon=h)
    if kind == 'load':
        return load('', n, t, **kw)[0]
    if kind == 'pv':
        return renewable('', n, t, **kw)[0]
    return grid('', n, t, **kw)[0]


def consistent(label, m):
    sd = m.state_dict()
    k = len(sd)
    vals = [v for v in m.state]
    check(label + ' state is the values of the state dictionary', vals, list(sd.values()))
    sp = m.observation_space
    check(label + ' one component per entry', (sp.shape, len(sp.unnormalized.low), len(sp.unnormalized.high)), ((k,), k, k))
    check(label + ' bounds of the module', ([v for v in sp.unnormalized.low], [v for v in sp.unnormalized.high]), ([v for v in m.min_obs], [v for v in m.max_obs]))
    for i in range(k):
        check_true(label + ' not below the lower bound', sp.unnormalized.low[i] <= vals[i])
        check_true(label + ' not above the upper bound', vals[i] <= sp.unnormalized.high[i])
    if k:
        norm = m.to_normalized(m.state, obs=True)
        norm = [v for v in norm] if k > 1 else [norm]
        check_ordered(label + ' normalised dictionary', m.state_dict(normalized=True), dict(zip(sd.keys(), norm)))


def ob_module(kind, h=0):
    m = mk(kind, h)
    consistent('fresh', m)


def act(kind, k=0):
    if kind == 'genset':
        return np.array([num('goal%d' % k, 0, 1), num('a%d' % k, 0)])
    if kind in ('pv', 'load'):
        return 0.0
    return num('a%d' % k)


def ob_step(kind, h=0):
    m = mk(kind, h)
    obs, r, d, info = m.step(act(kind), normalized=False)
    ref = m.to_normalized(m.state, obs=True)
    many = len(m.state) > 1
    check('observation after the step', [v for v in obs] if many else obs, [v for v in ref] if many else ref)
    consistent('stepped', m)


def ob_reset(kind, h=0):
    m = mk(kind, h)
    m.step(act(kind), normalized=False)
    obs = m.reset()
    ref = m.to_normalized(m.state, obs=True)
    many = len(m.state) > 1
    check('observation after the reset', [v for v in obs] if many else obs, [v for v in ref] if many else ref)
    consistent('reset', m)


def ob_end(kind, h=0):
    """at the end of the data, and beyond"""
    n = integer('n', 3)
    m = mk(kind, h, t=n - 2, n=n)
    for k in range(3):
        obs, r, d, info = m.step(0.0, normalized=False)
        ref = m.to_normalized(m.state, obs=True)
        many = len(m.state) > 1
        check('observation', [v for v in obs] if many else obs, [v for v in ref] if many else ref)
        consistent('end', m)
        if k == 0:
            check('still inside', m.current_step, n - 1)
        else:
            break


def ob_names(kind, h):
    m = mk(kind, h)
    comps = {'grid': ['import_price', 'export_price', 'co2_per_kwh', 'grid_status'], 'load': ['load'], 'pv': ['renewable']}[kind]
    keys = [c + '_current' for c in comps]
    for j in range(h):
        keys = keys + [c + '_forecast_%d' % j for c in comps]
    check('names', list(m.state_dict().keys()), keys)
    row = m.time_series[m.current_step, :]
    check('current values', [v for v in m.state[:len(comps)]], [v for v in row])


def ob_battery():
    b, q, p = battery()
    check_ordered('state', b.state_dict(), {'soc': q / p['max_capacity'], 'current_charge': q})


def ob_genset():
    u, d = integer('up', 0), integer('down', 0)
    g, p = genset(start_up_time=u, wind_down_time=d, init_start_up=False)
    check_ordered('state', g.state_dict(), {'current_status': 0, 'goal_status': 0, 'steps_until_up': u, 'steps_until_down': 0})
    g, p = genset(start_up_time=u, wind_down_time=d, init_start_up=True)
    check_ordered('state', g.state_dict(), {'current_status': 1, 'goal_status': 1, 'steps_until_up': 0, 'steps_until_down': d})


def ob_horizon():
    """after a change of horizon or forecaster the space follows"""
    m = mk('grid')
    m.set_forecaster('oracle', forecast_horizon=2)
    consistent('forecaster set', m)
    m.forecast_horizon = 1
    consistent('horizon set', m)
    m.set_forecaster(None)
    consistent('forecaster removed', m)


def ob_new_series():
    m = mk('pv', 1)
    k = integer('k', 4)
    assume(m.current_step + 2 < k)
    m.time_series = series('other', k, None, 0)
    consistent('new series', m)


def ob_new_short_series():
    """the space follows the series the module has now"""
    m = RenewableModule(time_series=np.array([num('s0', 0), num('s1', 0), num('s2', 0)]))
    m.time_series = np.array([num('o0', 0), num('o1', 0), num('o2', 0)])
    consistent('new series', m)
    g = RenewableModule(time_series=np.array([1.0, 5.0, 3.0, 2.0]), forecaster='oracle', forecast_horizon=2)
    g.time_series = np.array([1.0, 50.0, num('x', 0, 50), 2.0])
    consistent('new series with a forecast', g)
    f = RenewableModule(time_series=np.array([1.0, 5.0, 3.0, 2.0]), final_step=2)
    f.time_series = np.array([1.0, 2.0, num('y', 0, 50), 2.0])
    f.step(0.0, normalized=False)
    f.step(0.0, normalized=False)
    consistent('new series, past the end of the episode', f)


def ob_microgrid(normalized):
    n, t = clock()
    b1, q1, p1 = battery('b1', initial_step=t)
    b2, q2, p2 = battery('b2', initial_step=t)
    g, gs, gp = grid('', n, t)
    ge, gep = genset(initial_step=t)
    m = Microgrid([load('', n, t)[0], b1, g, ('pv', renewable('', n, t)[0]), b2, ge, balancing(t)], add_unbalanced_module=False)
    sd = m.state_dict(normalized=normalized)
    check('names', sorted(sd.keys()), ['balancing', 'battery', 'genset', 'grid', 'load', 'pv'])
    for name, mods in m.modules.iterdict():
        check_ordered('states of ' + name, sd[name], [x.state_dict(normalized=normalized) for x in mods])
    s = m.state_series(normalized=normalized)
    want = {}
    for name, lst in sd.items():
        for j, d in enumerate(lst):
            for k, v in d.items():
                want[(name, j, k)] = v
    check_ordered('series', s.to_dict(), want)


def ob_outside():
    """also a state outside its bounds is shown by the affine map"""
    q = num('q')
    b = BatteryModule(min_capacity=10, max_capacity=50, max_charge=20, max_discharge=20, efficiency=0.9, init_charge=q)
    check('normalised state', [v for v in b.state_dict(normalized=True).values()], [v for v in b.to_normalized(b.state, obs=True)])
    check('returned by reset', [v for v in b.reset()], [(q / 50 - 0.2) / 0.8, (q - 10) / 40])
