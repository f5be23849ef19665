from common import *

CASES = {
    'ob_oracle': [{'kind': 'pv', 'h': 3}, {'kind': 'load', 'h': 2}, {'kind': 'grid', 'h': 2}],
    'ob_oracle_near_end': [{'kind': 'pv', 'h': 3, 'left': 1}, {'kind': 'load', 'h': 3, 'left': 2}, {'kind': 'grid', 'h': 2, 'left': 1}, {'kind': 'pv', 'h': 2, 'left': 0},
                           {'kind': 'grid', 'h': 1, 'left': 0}],
    'ob_short_episode': [{'kind': 'pv'}, {'kind': 'load'}],
    'ob_beyond_end': [{'kind': 'pv', 'h': 2}, {'kind': 'grid', 'h': 1}],
    'ob_none': [{'kind': 'pv'}, {'kind': 'load'}, {'kind': 'grid'}],
    'ob_after_steps': [{'kind': 'pv', 'h': 2}, {'kind': 'grid', 'h': 1}],
    'ob_user': [{'form': 'vector'}, {'form': 'scalar'}, {'form': 'list'}],
    'ob_user_clipped': [{'form': 'vector'}],
    'ob_noise': [{'kind': 'pv', 'inc': False}, {'kind': 'load', 'inc': False}, {'kind': 'grid', 'inc': False}, {'kind': 'pv', 'inc': True}],
    'ob_series_kept': [{'kind': 'pv', 'how': 'oracle'}, {'kind': 'load', 'how': 'oracle'}, {'kind': 'pv', 'how': 'noise'}, {'kind': 'grid', 'how': 'noise'}],
    'ob_change_step': [{'kind': 'pv'}, {'kind': 'load'}, {'kind': 'grid'}],
    'ob_change_horizon': [{'kind': 'pv'}, {'kind': 'grid'}],
}
THOROUGH = {'ob_oracle': [{'kind': 'grid', 'h': 5}, {'kind': 'load', 'h': 6}], 'ob_oracle_near_end': [{'kind': 'grid', 'h': 4, 'left': 2}]}


def mk(kind, n, t, **kw):
    if kind == 'load':
        return load('', n, t, **kw)[0]
    if kind == 'pv':
        return renewable('', n, t, **kw)[0]
    return grid('', n, t, **kw)[0]


def mids(m):
    """midpoint of the observation bounds per component"""
    c = len(m.state_components)
    lo, hi = m.observation_space.unnormalized.low, m.observation_space.unnormalized.high
    return [(lo[i] + hi[i]) / 2 for i in range(c)]


def rows(f):
    return [[v for v in r] for r in f]


def in_state(label, m, want):
    """the state shows the forecast after the current values"""
    c = len(m.state_components)
    flat = []
    for r in want:
        flat = flat + r
    check(label + ' in the state', [v for v in m.state[c:]], flat)
    check(label + ' keys', [k for k in m.state_dict() if 'forecast' in k], [x + '_forecast_%d' % j for j in range(len(want)) for x in m.state_components])


def ob_oracle(kind, h):
    n, t = clock()
    assume(t + h < n)
    m = mk(kind, n, t, forecaster='oracle', forecast_horizon=h)
    ts = m.time_series
    want = [[v for v in ts[t + 1 + j]] for j in range(h)]
    check('horizon', m.forecast_horizon, h)
    check('forecast', rows(m.forecast()), want)
    in_state('forecast', m, want)


def ob_oracle_near_end(kind, h, left):
    """fewer than h rows remain after the current one"""
    n = integer('n', left + 2)
    t = n - 1 - left
    m = mk(kind, n, t, forecaster='oracle', forecast_horizon=h)
    ts = m.time_series
    want = [[v for v in ts[t + 1 + j]] if j < left else mids(m) for j in range(h)]
    check('forecast', rows(m.forecast()), want)
    in_state('forecast', m, want)


def ob_short_episode(kind):
    """the end of the episode does not hide data that exist beyond it"""
    s = np.array([100.0, num('s1', 0, 100), num('s2', 0, 100), num('s3', 0, 100), num('s4', 0, 100), num('s5', 0, 100), 0.0])
    m = (LoadModule if kind == 'load' else RenewableModule)(time_series=s, forecaster='oracle', forecast_horizon=2, initial_step=1, final_step=4)
    ts = m.time_series
    for t in range(1, 4):
        check('forecast', rows(m.forecast()), [[ts[t + 1, 0]], [ts[t + 2, 0]]])
        in_state('forecast', m, [[ts[t + 1, 0]], [ts[t + 2, 0]]])
        m.step(0.0, normalized=False)


def ob_beyond_end(kind, h):
    n = integer('n', 3)
    m = mk(kind, n, n - 1, forecaster='oracle', forecast_horizon=h)
    m.step(0.0, normalized=False)
    want = [mids(m)] * h
    check('forecast', rows(m.forecast()), want)
    in_state('forecast', m, want)
    check('current values', [v for v in m.state[:len(m.state_components)]], mids(m))


def ob_none(kind):
    n, t = clock()
    h = integer('h', 0)
    m = mk(kind, n, t, forecast_horizon=h)
    check('horizon', m.forecast_horizon, 0)
    check('no forecast', m.forecast(), None)
    check('state', [k for k in m.state_dict()], [x + '_current' for x in m.state_components])
    m.step(0.0, normalized=False)
    check('state after a step', [k for k in m.state_dict()], [x + '_current' for x in m.state_components])


def ob_after_steps(kind, h):
    n, t = clock()
    assume(t + h + 2 < n)
    m = mk(kind, n, t, forecaster='oracle', forecast_horizon=h)
    ts = m.time_series
    for k in range(2):
        m.step(0.0, normalized=False)
        want = [[v for v in ts[t + k + 2 + j]] for j in range(h)]
        check('forecast', rows(m.forecast()), want)
        in_state('forecast', m, want)
    m.reset()
    want = [[v for v in ts[t + 1 + j]] for j in range(h)]
    check('forecast after reset', rows(m.forecast()), want)
    in_state('after reset', m, want)


def user(form, k):
    if form == 'scalar':
        def f(val_c, val_c_n, n):
            if len(val_c_n) > 1:
                raise TypeError('one value at a time')
            return k * val_c_n.item()
    elif form == 'list':
        def f(val_c, val_c_n, n):
            return [k * v for v in val_c_n.reshape(-1)]
    else:
        def f(val_c, val_c_n, n):
            return k * val_c_n
    return f


def ob_user(form):
    s = vector('s', 3, lo=0)
    k = num('k', 0, 1)
    m = RenewableModule(time_series=s, forecaster=user(form, k), forecast_horizon=1)
    ts = m.time_series
    check('forecast', rows(m.forecast()), [[k * ts[1, 0]]])
    in_state('forecast', m, [[k * ts[1, 0]]])
    m.step(0.0, normalized=False)
    check('forecast', rows(m.forecast()), [[k * ts[2, 0]]])
    m.step(0.0, normalized=False)
    check('nothing left', rows(m.forecast()), [mids(m)])
    check('series kept', [v for v in m.time_series[:, 0]], [v for v in s])


def ob_user_clipped(form):
    s = vector('s', 3, lo=0)
    k = num('k', 0)
    m = RenewableModule(time_series=s, forecaster=user(form, k), forecast_horizon=1)
    hi = m.observation_space.unnormalized.high[0]
    check('clipped', rows(m.forecast()), [[min(k * s[1], hi)]])


def ob_noise(kind, inc):
    n, t = clock()
    assume(t + 2 < n)
    std = num('std', 0)
    m = mk(kind, n, t, forecaster=std, forecast_horizon=2, forecaster_increase_uncertainty=inc)
    f = m.forecast()
    c = len(m.state_components)
    check('shape', f.shape, (2, c))
    lo, hi = m.observation_space.unnormalized.low, m.observation_space.unnormalized.high
    for j in range(2):
        for i in range(c):
            check_true('not below the bounds', lo[i] <= f[j, i])
            check_true('not above the bounds', f[j, i] <= hi[i])
    check('state length', len(m.state), 3 * c)


def ob_noise_near_end():
    n = integer('n', 3)
    m = mk('pv', n, n - 2, forecaster=num('std', 0), forecast_horizon=3)
    f = m.forecast()
    check('shape', f.shape, (3, 1))
    check('padded', (f[1, 0], f[2, 0]), (mids(m)[0], mids(m)[0]))


def ob_noise_horizon():
    """the horizon of a noisy forecast can be changed"""
    n, t = clock()
    assume(t + 3 < n)
    m = mk('pv', n, t, forecaster=num('std', 0), forecast_horizon=2, forecaster_increase_uncertainty=True)
    m.forecast_horizon = 3
    check('longer', (m.forecast().shape, len(m.state)), ((3, 1), 4))
    m.forecast_horizon = 1
    check('shorter', (m.forecast().shape, len(m.state)), ((1, 1), 2))


def ob_series_kept(kind, how):
    """forecasting never writes into the series"""
    n, t = clock()
    assume(t + 2 < n)
    m = mk(kind, n, t, forecaster='oracle' if how == 'oracle' else num('std', 0), forecast_horizon=2)
    plain = mk(kind, n, t)
    i = integer('i', 0)
    assume(i < n)
    m.forecast()
    m.step(0.0, normalized=False)
    check('series', [v for v in m.time_series[i]], [v for v in plain.time_series[i]])


def ob_change_step(kind):
    n, t = clock()
    u = integer('u', 0)
    assume(u + 2 < n)
    m = mk(kind, n, t, forecaster='oracle', forecast_horizon=1)
    ts = m.time_series
    m.current_step = u
    want = [[v for v in ts[u + 1]]]
    check('forecast', rows(m.forecast()), want)
    in_state('forecast', m, want)
    check('current values', [v for v in m.state[:len(m.state_components)]], [v for v in ts[u]])


def ob_change_horizon(kind):
    n, t = clock()
    assume(t + 3 < n)
    m = mk(kind, n, t)
    ts = m.time_series
    m.set_forecaster('oracle', forecast_horizon=2)
    want = [[v for v in ts[t + 1 + j]] for j in range(2)]
    check('horizon', m.forecast_horizon, 2)
    check('forecast', rows(m.forecast()), want)
    in_state('forecast', m, want)
    m.forecast_horizon = 3
    want = [[v for v in ts[t + 1 + j]] for j in range(3)]
    check('longer', rows(m.forecast()), want)
    in_state('longer', m, want)
    m.forecast_horizon = 1
    check('shorter', rows(m.forecast()), want[:1])
    in_state('shorter', m, want[:1])
    m.step(0.0, normalized=False)
    check('shorter after a step', rows(m.forecast()), want[1:2])
    m.set_forecaster(None)
    check('removed', (m.forecast_horizon, m.forecast()), (0, None))
    in_state('removed', m, [])
    m.forecast_horizon = 1
    check('oracle by default', rows(m.forecast()), want[1:2])
    in_state('oracle by default', m, want[1:2])


def ob_new_series():
    n, t = clock()
    m = mk('pv', n, t, forecaster='oracle', forecast_horizon=2)
    k = integer('k', 3)
    assume(t + 2 < k)
    s = series('other', k, None, 0)
    m.time_series = s
    want = [[s[t + 1]], [s[t + 2]]]
    check('forecast', rows(m.forecast()), want)
    in_state('forecast', m, want)


def ob_new_series_bounds():
    """the bounds a forecast is kept within are those of the series in use"""
    m = RenewableModule(time_series=np.array([1.0, 2.0, 1.0, 2.0, 1.0]), forecaster=lambda v, w, n: 3 * w, forecast_horizon=2)
    m.time_series = np.array([10.0, 20.0, 5.0, 30.0, 0.0])
    check('forecast', rows(m.forecast()), [[30.0], [15.0]])
    in_state('forecast', m, [[30.0], [15.0]])
    m.step(0.0, normalized=False)
    m.step(0.0, normalized=False)
    m.step(0.0, normalized=False)
    check('padded', rows(m.forecast()), [[0.0], mids(m)])


def ob_bad():
    n, t = clock()
    check('unknown forecaster', raised(mk, 'pv', n, t, forecaster='magic', exc='ValueError'), True)


def micro(n, t, **kw):
    return Microgrid([load('', n, t, **kw)[0], renewable('', n, t, **kw)[0], grid('', n, t, **kw)[0], battery(initial_step=t)[0], balancing(t)],
                     add_unbalanced_module=False)


def ob_microgrid():
    n, t = clock()
    assume(t + 2 < n)
    m = micro(n, t)
    check('none', m.get_forecast_horizon(), 0)
    m.set_forecaster('oracle', forecast_horizon=2)
    check('horizon', m.get_forecast_horizon(), 2)
    for name in ('load', 'renewable', 'grid'):
        x = m.modules[name][0]
        want = [[v for v in x.time_series[t + 1 + j]] for j in range(2)]
        check('forecast', rows(x.forecast()), want)
        in_state('forecast', x, want)
    m.set_forecaster(None)
    check('removed', [m.modules[k][0].forecast_horizon for k in ('load', 'renewable', 'grid')], [0, 0, 0])


def ob_microgrid_by_name():
    n, t = clock()
    assume(t + 2 < n)
    m = micro(n, t)
    m.set_forecaster({'load': 'oracle'}, forecast_horizon=2)
    x = m.modules['load'][0]
    check('named module', rows(x.forecast()), [[v for v in x.time_series[t + 1 + j]] for j in range(2)])
    check('others', [m.modules[k][0].forecast_horizon for k in ('renewable', 'grid')], [0, 0])
    check('different horizons are refused', raised(m.get_forecast_horizon, exc='ValueError'), True)
    check('unknown name', raised(m.set_forecaster, {'wind': 'oracle'}, exc='NameError'), True)


def ob_microgrid_same_name():
    """a forecaster given for a name is that of every module of the name"""
    s = vector('s', 4, lo=0)
    r = vector('r', 4, lo=0)
    m = Microgrid([('sun', RenewableModule(time_series=s)), ('sun', RenewableModule(time_series=r)), LoadModule(time_series=s)])
    m.set_forecaster({'sun': 'oracle', 'load': 'oracle'}, forecast_horizon=2)
    check('first', rows(m.modules['sun'][0].forecast()), [[s[1]], [s[2]]])
    check('second', rows(m.modules['sun'][1].forecast()), [[r[1]], [r[2]]])
    check('horizon', m.get_forecast_horizon(), 2)
    m.set_forecaster('oracle', forecast_horizon=1)
    check('new horizon', m.get_forecast_horizon(), 1)


def ob_microgrid_horizon():
    """the horizon of the microgrid is that of its modules"""
    s = vector('s', 4, lo=0)
    a = RenewableModule(time_series=s, forecaster='oracle', forecast_horizon=2)
    check('one module', Microgrid([a]).get_forecast_horizon(), 2)
    b = LoadModule(time_series=s, forecaster='oracle', forecast_horizon=2)
    m = Microgrid([a, b])
    check('two modules', m.get_forecast_horizon(), 2)
    m.set_forecaster('oracle', forecast_horizon=1)
    check('another horizon', m.get_forecast_horizon(), 1)
    b.set_forecaster('oracle', forecast_horizon=3)
    check('different horizons refused', raised(Microgrid([a, b]).get_forecast_horizon, exc='ValueError'), True)
