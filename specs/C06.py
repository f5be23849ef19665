from common import *

CASES = {
    'ob_exchange': [{'cols': 4, 'form': 'scalar'}, {'cols': 3, 'form': 'array'}],
    'ob_two_steps': [{'a': 1, 'b': 1}, {'a': 1, 'b': -1}, {'a': -1, 'b': 1}, {'a': -1, 'b': -1}],
    'ob_forecast': [{'h': 2}],
}
THOROUGH = {'ob_forecast': [{'h': 3}]}


def status(s, t, cols):
    return s[t, 3] if cols == 4 else 1


def ob_exchange(cols, form):
    n, t = clock()
    for sign in (1, -1):
        m, s, p = grid(n=n, t=t, cols=cols)
        st = status(s, t, cols)
        check('max production', m.max_production, p['max_import'] * st)
        check('max consumption', m.max_consumption, p['max_export'] * st)
        check('current status', m.current_status, st)
        a = pos('a')
        act = a * sign
        obs, reward, done, info = m.step(np.array([act]) if form == 'array' else act, normalized=False)
        if sign > 0:
            check('import', info['provided_energy'], min(a, p['max_import'] * st))
            check('no export', info.get('absorbed_energy', 0), 0)
            check_true('import limited', info['provided_energy'] <= p['max_import'] * st)
            check('reward', reward, -(s[t, 0] + p['cost_per_unit_co2'] * s[t, 2]) * info['provided_energy'])
            check('co2', info['co2_production'], s[t, 2] * info['provided_energy'])
        else:
            check('export', info['absorbed_energy'], min(a, p['max_export'] * st))
            check('no import', info.get('provided_energy', 0), 0)
            check_true('export limited', info['absorbed_energy'] <= p['max_export'] * st)
            check('reward', reward, s[t, 1] * info['absorbed_energy'])
            check('co2', info['co2_production'], 0)


def ob_two_steps(a, b):
    n, t = clock()
    m, s, p = grid(n=n, t=t)
    x, y = pos('x'), pos('y')
    m.step(x * a, normalized=False)
    st = s[t + 1, 3]
    check('status next step', m.current_status, st)
    check('limits next step', (m.max_production, m.max_consumption), (p['max_import'] * st, p['max_export'] * st))
    obs, reward, done, info = m.step(y * b, normalized=False)
    if b > 0:
        e = min(y, p['max_import'] * st)
        check('second import', info, {'provided_energy': e, 'co2_production': s[t + 1, 2] * e})
        check('second reward', reward, -(s[t + 1, 0] + p['cost_per_unit_co2'] * s[t + 1, 2]) * e)
    else:
        e = min(y, p['max_export'] * st)
        check('second export', info, {'absorbed_energy': e, 'co2_production': 0})
        check('second reward', reward, s[t + 1, 1] * e)


def ob_outage():
    n, t = clock()
    for sign in (1, -1):
        m, s, p = grid(n=n, t=t)
        assume(s[t, 3] == 0)
        obs, reward, done, info = m.step(pos('a') * sign, normalized=False)
        check('nothing flows in an outage', info.get('provided_energy', 0) + info.get('absorbed_energy', 0), 0)
        check('no cost in an outage', reward, 0)


def ob_forecast(h):
    """with a forecast the current values are still those of the current step"""
    n, t = clock()
    assume(t + h + 1 < n)
    m, s, p = grid(n=n, t=t, forecaster='oracle', forecast_horizon=h)
    check('status', m.current_status, s[t, 3])
    check('import price', m.import_price, np.array([s[t + j, 0] for j in range(h + 1)]))
    check('export price', m.export_price, np.array([s[t + j, 1] for j in range(h + 1)]))
    check('co2', m.co2_per_kwh, np.array([s[t + j, 2] for j in range(h + 1)]))
    check('grid status', m.grid_status, np.array([s[t + j, 3] for j in range(h + 1)]))
    a = pos('a')
    obs, reward, done, info = m.step(a, normalized=False)
    e = min(a, p['max_import'] * s[t, 3])
    check('import', info, {'provided_energy': e, 'co2_production': s[t, 2] * e})
    check('reward', reward, -(s[t, 0] + p['cost_per_unit_co2'] * s[t, 2]) * e)


def ob_validation():
    mi, me = num('mi'), num('me')
    ok = np.array([[1.0, 2.0, 3.0, 1.0], [1.0, 2.0, 3.0, 0.0]])
    check('negative limits refused', raised(GridModule, mi, me, ok, exc='ValueError'), ite_(mi < 0, True, me < 0))
    check('two columns refused', raised(GridModule, 1, 1, vector('v2', 3, 2, lo=0), exc='ValueError'), True)
    check('five columns refused', raised(GridModule, 1, 1, vector('v5', 3, 5, lo=0), exc='ValueError'), True)
    a, b, c = num('a'), num('b'), num('c')
    check('negative entries refused, three columns', raised(GridModule, 1, 1, np.array([[1, 1, 1], [a, b, c]]), exc='ValueError'),
          ite_(a < 0, True, ite_(b < 0, True, c < 0)))
    check('negative entries refused, four columns', raised(GridModule, 1, 1, np.array([[a, 1, 1, 1], [1, b, c, 0]]), exc='ValueError'),
          ite_(a < 0, True, ite_(b < 0, True, c < 0)))
    s = num('s')
    check('status must be binary', raised(GridModule, 1, 1, np.array([[1, 1, 1, s], [1, 1, 1, 1]]), exc='ValueError'),
          ite_(s == 0, False, ite_(s == 1, False, True)))


def ob_weak_grid():
    s = choice('s', 0, 1)
    check('weak grid', GridModule(1, 1, np.array([[1, 1, 1, s], [1, 1, 1, 1]])).weak_grid, s == 0)
    check('three columns never weak', GridModule(1, 1, np.array([[1, 1, 1], [1, 1, 1]])).weak_grid, False)


def ob_new_series():
    """the status is that of the series in use"""
    n, t = clock()
    m, s, p = grid(n=n, t=t)
    check('status', (m.current_status, m.max_production), (s[t, 3], p['max_import'] * s[t, 3]))
    new = series('other', n, 4, 0)
    assume(((new[:, 3] == 0) | (new[:, 3] == 1)).all())
    m.time_series = new
    check('status of the new series', m.current_status, new[t, 3])
    check('limits of the new series', (m.max_production, m.max_consumption), (p['max_import'] * new[t, 3], p['max_export'] * new[t, 3]))
