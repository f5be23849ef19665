from common import *

CASES = {
    'ob_source': [{'form': 'scalar', 'snk': True}, {'form': 'array', 'snk': False}],
    'ob_sink': [{'form': 'scalar', 'src': True}, {'form': 'array', 'src': False}],
    'ob_zero': [{'src': True, 'snk': True}, {'src': True, 'snk': False}, {'src': False, 'snk': True}],
    'ob_refuse_source': [{'snk': True}, {'snk': False}],
    'ob_refuse_sink': [{'src': True}, {'src': False}],
    'ob_battery_refuses': [{'sign': 1}, {'sign': -1}],
    'ob_genset_refuses': [{'up': 0, 'down': 0, 'running': True, 'goal': 0},
                          {'up': 0, 'down': 0, 'running': True, 'goal': 1},
                          {'up': 0, 'down': 0, 'running': False, 'goal': 0},
                          {'up': 0, 'down': 0, 'running': False, 'goal': 1},
                          {'up': 0, 'down': 2, 'running': True, 'goal': 0},
                          {'up': 0, 'down': 2, 'running': True, 'goal': 1},
                          {'up': 0, 'down': 2, 'running': False, 'goal': 0},
                          {'up': 0, 'down': 2, 'running': False, 'goal': 1},
                          {'up': 2, 'down': 0, 'running': True, 'goal': 0},
                          {'up': 2, 'down': 0, 'running': True, 'goal': 1},
                          {'up': 2, 'down': 0, 'running': False, 'goal': 0},
                          {'up': 2, 'down': 0, 'running': False, 'goal': 1},
                          {'up': 2, 'down': 2, 'running': True, 'goal': 0},
                          {'up': 2, 'down': 2, 'running': True, 'goal': 1},
                          {'up': 2, 'down': 2, 'running': False, 'goal': 0},
                          {'up': 2, 'down': 2, 'running': False, 'goal': 1}],
    'ob_grid_refuses': [{'sign': 1}, {'sign': -1}],
}


def act(v, form):
    return np.array([v]) if form == 'array' else v


def ob_source(form, snk):
    m = Probe('p', True, snk)
    lo, hi = m.min_production, m.max_production
    assume(lo <= hi)
    a = pos('a')
    obs, reward, done, info = m.step(act(a, form), normalized=False)
    want = ite_(a > hi, hi, ite_(a < lo, lo, a))
    check('delivered', info, {'provided_energy': want})
    check('asked once as source', m.journal, [('p', 'source', want)])


def ob_sink(form, src):
    m = Probe('p', src, True)
    c = m.max_consumption
    a = pos('a')
    obs, reward, done, info = m.step(act(-a, form), normalized=False)
    check('absorbed', info, {'absorbed_energy': min(a, c)})
    check('asked once as sink', m.journal, [('p', 'sink', min(a, c))])


def ob_zero(src, snk):
    """zero selects the source role when there is one, otherwise the sink role with zero"""
    m = Probe('p', src, snk)
    lo, hi = m.min_production, m.max_production
    if src:
        assume(lo <= hi)
    obs, reward, done, info = m.step(0.0, normalized=False)
    check('zero request', info, {'provided_energy': lo} if src else {'absorbed_energy': 0})


def ob_refuse_source(snk):
    m = Probe('p', True, snk, raise_errors=True)
    lo, hi = m.min_production, m.max_production
    assume(lo <= hi)
    a = num('a', 0)
    bad = ite_(a > hi, True, a < lo)
    r = raised(m.step, a, normalized=False, exc='ValueError')
    check('out-of-limits request raises', r, bad)
    assume(bad)
    check('nothing happened', m.journal, [])
    check('step not advanced', m.current_step, 0)
    check('nothing logged', m.log_dict(), {})


def ob_refuse_sink(src):
    m = Probe('p', src, True, raise_errors=True)
    c = m.max_consumption
    a = pos('a')
    r = raised(m.step, -a, normalized=False, exc='ValueError')
    check('out-of-limits request raises', r, a > c)
    assume(a > c)
    check('nothing happened', m.journal, [])
    check('step not advanced', m.current_step, 0)
    check('nothing logged', m.log_dict(), {})


def ob_in_limits_with_raise():
    m = Probe('p', raise_errors=True)
    a = num('a', 0)
    assume(a <= m.max_production)
    assume(m.min_production <= a)
    obs, reward, done, info = m.step(a, normalized=False)
    check('delivered', info, {'provided_energy': a})
    b = pos('b')
    assume(b <= m.max_consumption)
    obs, reward, done, info = m.step(-b, normalized=False)
    check('absorbed', info, {'absorbed_energy': b})


def ob_wrong_role():
    a = pos('a')
    check('sink asked to provide', raised(Probe('p', False, True).step, a, normalized=False), True)
    check('source asked to absorb', raised(Probe('q', True, False).step, -a, normalized=False), True)


def ob_normalized_sign():
    """for a normalised action the sign of the denormalised value selects the role"""
    m = Probe('p')
    assume(m.min_production <= m.max_production)
    x = num('x', 0, 1)
    a = 20 * x - 10
    assume(a != 0)
    obs, reward, done, info = m.step(np.array([x]))
    assert_src = ite_(a > m.max_production, m.max_production, ite_(a < m.min_production, m.min_production, a))
    check('journal', m.journal, [('p', ite_(a > 0, 'source', 'sink'), ite_(a > 0, assert_src, min(-a, m.max_consumption)))])


def ob_battery_refuses(sign):
    b, q, p = battery(raise_errors=True)
    a = pos('a')
    lim = b.max_production if sign > 0 else b.max_consumption
    before = snapshot(b)
    check('out-of-limits request raises', raised(b.step, a * sign, normalized=False, exc='ValueError'), a > lim)
    assume(a > lim)
    check('charge unchanged', b.current_charge, q)
    check_same('nothing changed', before, snapshot(b))
    check('nothing logged', b.log_dict(), {})
    check('step not advanced', b.current_step, 0)


def ob_grid_refuses(sign):
    n, t = clock()
    m, s, p = grid(n=n, t=t, raise_errors=True)
    a = pos('a')
    lim = (p['max_import'] if sign > 0 else p['max_export']) * s[t, 3]
    before = snapshot(m)
    check('out-of-limits request raises', raised(m.step, a * sign, normalized=False, exc='ValueError'), a > lim)
    assume(a > lim)
    check_same('nothing changed', before, snapshot(m))
    check('nothing logged', m.log_dict(), {})
    check('step not advanced', m.current_step, t)


def ob_grid():
    n, t = clock()
    m, s, p = grid(n=n, t=t)
    a = pos('a')
    obs, reward, done, info = m.step(a, normalized=False)
    check('imported', info['provided_energy'], min(a, p['max_import'] * s[t, 3]))
    obs, reward, done, info = m.step(np.array([-a]), normalized=False)
    check('exported', info['absorbed_energy'], min(a, p['max_export'] * s[t + 1, 3]))


def ob_genset():
    """a running generator clips to its running limits, an idle one to zero, and refuses when told to"""
    g, p = genset()
    a = pos('a')
    obs, reward, done, info = g.step(np.array([1, a]), normalized=False)
    lo, hi = p['running_min_production'], p['running_max_production']
    check('running output', info['provided_energy'], ite_(a > hi, hi, ite_(a < lo, lo, a)))
    obs, reward, done, info = g.step(np.array([0, a]), normalized=False)
    check('idle output', info['provided_energy'], 0)


def ob_genset_refuses(up, down, running, goal):
    """a refused request leaves the generator alone, start-up and wind-down counters included"""
    g, p = genset(start_up_time=up, wind_down_time=down, init_start_up=running, raise_errors=True)
    a = num('a', 0)
    on = (running and (goal == 1 or down > 0)) or (not running and goal == 1 and up == 0)
    lo, hi = (p['running_min_production'], p['running_max_production']) if on else (0, 0)
    before = snapshot(g)
    r = raised(g.step, np.array([goal, a]), normalized=False, exc='ValueError')
    check('out-of-limits request raises', r, ite_(a > hi, True, a < lo))
    assume(ite_(a > hi, True, a < lo))
    check_same('nothing changed', before, snapshot(g))
    check('nothing logged', g.log_dict(), {})
    check('step not advanced', g.current_step, 0)


def ob_renewable_refuses():
    n, t = clock()
    m, s = renewable(n=n, t=t, raise_errors=True)
    a = num('a', 0)
    before = snapshot(m)
    check('refused', raised(m.step, a, normalized=False, exc='ValueError'), a > s[t])
    assume(a > s[t])
    check_same('nothing changed', before, snapshot(m))


def ob_balancing_takes_everything():
    u = UnbalancedEnergyModule(raise_errors=True, loss_load_cost=num('llc', 0), overgeneration_cost=num('ogc', 0))
    a = pos('a')
    obs, reward, done, info = u.step(a, normalized=False)
    check('loss load', info, {'provided_energy': a})
    obs, reward, done, info = u.step(-a, normalized=False)
    check('overgeneration', info, {'absorbed_energy': a})


def ob_bad_action():
    m = Probe('p')
    check('a string is not an action', raised(m.step, None, normalized=False, exc='ValueError'), True)
    check('nothing happened', m.journal, [])
