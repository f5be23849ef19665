from common import *

CASES = {
    'ob_battery': [{'sign': 1}, {'sign': -1}],
    'ob_battery_model': [{'sign': 1}, {'sign': -1}],
    'ob_genset': [{'fn': False}, {'fn': True}],
    'ob_grid': [{'sign': 1, 'cols': 4}, {'sign': -1, 'cols': 4}, {'sign': 1, 'cols': 3}, {'sign': -1, 'cols': 3}],
}


def ob_battery(sign):
    b, q, p = battery()
    a = pos('a')
    obs, reward, done, info = b.step(a * sign, normalized=False)
    check('reward', reward, -p['battery_cost_cycle'] * abs(b.current_charge - q))
    check('marginal costs', (b.production_marginal_cost, b.absorption_marginal_cost, b.marginal_cost),
          (p['battery_cost_cycle'], p['battery_cost_cycle'], p['battery_cost_cycle']))
    check('done', done, False)


def ob_battery_model(sign):
    """with a user transition model the cost is still that of the internal energy change"""
    f = opaque('model', sort='num')
    b, q, p = battery(battery_transition_model=f)
    a = pos('a')
    try_value(b.step, a * sign, normalized=False)
    ch = b.log_dict()['reward']
    change = b.current_charge - q
    assume(q + change > p['min_capacity'])
    check('reward', ch, [-p['battery_cost_cycle'] * abs(change)])


def ob_genset(fn):
    f = opaque('fuelcost', sort='num')
    g, p = genset(cost=f) if fn else genset()
    a = num('a', 0)
    lo, hi = p['running_min_production'], p['running_max_production']
    e = ite_(a > hi, hi, ite_(a < lo, lo, a))
    obs, reward, done, info = g.step(np.array([1, a]), normalized=False)
    fuel = f(e) if fn else p['genset_cost'] * e
    check('reward', reward, -(fuel + p['cost_per_unit_co2'] * p['co2_per_unit'] * e))
    check('info', info, {'provided_energy': e, 'co2_production': p['co2_per_unit'] * e})
    one = (f(1.0) if fn else p['genset_cost']) + p['cost_per_unit_co2'] * p['co2_per_unit']
    check('marginal cost', (g.production_marginal_cost, g.marginal_cost), (one, one))
    check('done', done, False)


def ob_genset_off():
    g, p = genset(init_start_up=False)
    obs, reward, done, info = g.step(np.array([0, num('a', 0)]), normalized=False)
    check('reward', reward, 0)
    check('info', info, {'provided_energy': 0, 'co2_production': 0})


def ob_grid(sign, cols):
    n, t = clock()
    m, s, p = grid(n=n, t=t, cols=cols)
    st = s[t, 3] if cols == 4 else 1
    check('marginal costs', (m.production_marginal_cost, m.absorption_marginal_cost, m.marginal_cost), (s[t, 0], s[t, 1], s[t, 0]))
    a = pos('a')
    obs, reward, done, info = m.step(a * sign, normalized=False)
    if sign > 0:
        e = min(a, p['max_import'] * st)
        check('info', info, {'provided_energy': e, 'co2_production': s[t, 2] * e})
        check('reward', reward, -(s[t, 0] * e + p['cost_per_unit_co2'] * s[t, 2] * e))
    else:
        e = min(a, p['max_export'] * st)
        check('info', info, {'absorbed_energy': e, 'co2_production': 0})
        check('reward', reward, s[t, 1] * e)
    check('marginal costs next step', (m.production_marginal_cost, m.absorption_marginal_cost), (s[t + 1, 0], s[t + 1, 1]))


def ob_balancing():
    l, o = num('llc', 0), num('ogc', 0)
    u = UnbalancedEnergyModule(raise_errors=False, loss_load_cost=l, overgeneration_cost=o)
    a = pos('a')
    obs, reward, done, info = u.step(a, normalized=False)
    check('loss load reward', reward, -l * a)
    check('loss load', info, {'provided_energy': a})
    obs, reward, done, info = u.step(-a, normalized=False)
    check('overgeneration reward', reward, -o * a)
    check('overgeneration', info, {'absorbed_energy': a})
    obs, reward, done, info = u.step(0.0, normalized=False)
    check('nothing costs nothing', reward, 0)
    check('marginal costs', (u.production_marginal_cost, u.absorption_marginal_cost), (l, o))
    check('done', done, False)


def ob_free():
    n, t = clock()
    m, s = renewable(n=n, t=t)
    obs, reward, done, info = m.step(num('a', 0), normalized=False)
    check('renewable reward', reward, 0)
    check('renewable marginal costs', (m.production_marginal_cost, m.absorption_marginal_cost), (0, 0))
    l, s = load(n=n, t=t)
    obs, reward, done, info = l.step(0.0, normalized=False)
    check('load reward', reward, 0)
    check('load marginal costs', (l.production_marginal_cost, l.absorption_marginal_cost), (0, 0))


def ob_microgrid_costs():
    """costs configured on the microgrid reach the balancing module it adds"""
    l, o = num('llc', 0), num('ogc', 0)
    b, q, p = battery()
    n, t = clock()
    ld, _ = load(n=n, t=0)
    m = Microgrid([b, ld], loss_load_cost=l, overgeneration_cost=o)
    mods = [x for x in m.modules.iterlist() if isinstance(x, UnbalancedEnergyModule)]
    check('one balancing module', len(mods), 1)
    check('costs', (mods[0].loss_load_cost, mods[0].overgeneration_cost), (l, o))
