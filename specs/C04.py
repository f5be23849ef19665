from common import *

CASES = {
    'ob_discharge': [{'soc': False, 'form': 'scalar'}, {'soc': True, 'form': 'array'}],
    'ob_charge': [{'soc': False, 'form': 'array'}, {'soc': True, 'form': 'scalar'}],
    'ob_two_steps': [{'first': 1, 'second': 1}, {'first': 1, 'second': -1}, {'first': -1, 'second': 1}, {'first': -1, 'second': -1}],
    'ob_user_model': [{'sign': 1}, {'sign': -1}],
    'ob_normalized': [{'sign': 1}, {'sign': -1}],
}


def act(v, form):
    if form == 'array':
        return np.array([v])
    return v


def limits(b, q, p):
    check('maximum production', b.max_production, min(p['max_discharge'], q - p['min_capacity']) * p['efficiency'])
    check('maximum consumption', b.max_consumption, min(p['max_charge'], p['max_capacity'] - q) / p['efficiency'])
    check('minimum production is zero', b.min_production, 0)
    check('soc is charge over capacity', b.soc, q / p['max_capacity'])
    check('charge', b.current_charge, q)
    check('state', b.state_dict(), {'soc': q / p['max_capacity'], 'current_charge': q})


def ob_limits():
    b, q, p = battery()
    limits(b, q, p)
    b2, q2, p2 = battery('B', soc=True)
    limits(b2, q2, p2)


def ob_discharge(soc, form):
    b, q, p = battery(soc=soc)
    a = num('a', 0)
    e = p['efficiency']
    most = min(p['max_discharge'], q - p['min_capacity'])
    obs, reward, done, info = b.step(act(a, form), normalized=False)
    given = min(a, most * e)
    check('delivered energy', info['provided_energy'], given)
    check('charge after discharge', b.current_charge, q - given / e)
    check_true('charge not below minimum', b.current_charge >= p['min_capacity'])
    check_true('charge not above maximum', b.current_charge <= p['max_capacity'])
    check_true('discharge limit', q - b.current_charge <= p['max_discharge'])
    limits(b, q - given / e, p)


def ob_charge(soc, form):
    b, q, p = battery(soc=soc)
    a = pos('a')
    e = p['efficiency']
    most = min(p['max_charge'], p['max_capacity'] - q)
    obs, reward, done, info = b.step(act(-a, form), normalized=False)
    taken = min(a, most / e)
    check('absorbed energy', info['absorbed_energy'], taken)
    check('charge after charging', b.current_charge, q + taken * e)
    check_true('charge not below minimum', b.current_charge >= p['min_capacity'])
    check_true('charge not above maximum', b.current_charge <= p['max_capacity'])
    check_true('charge limit', b.current_charge - q <= p['max_charge'])
    limits(b, q + taken * e, p)


def after(q, p, a):
    e = p['efficiency']
    return ite_(a > 0, q - min(a, min(p['max_discharge'], q - p['min_capacity']) * e) / e,
                q + min(-a, min(p['max_charge'], p['max_capacity'] - q) / e) * e)


def ob_two_steps(first, second):
    b, q, p = battery()
    a1, a2 = pos('a1') * first, pos('a2') * second
    b.step(a1, normalized=False)
    q1 = after(q, p, a1)
    check('charge after one step', b.current_charge, q1)
    b.step(a2, normalized=False)
    q2 = after(q1, p, a2)
    check('charge after two steps', b.current_charge, q2)
    check_true('charge not below minimum', b.current_charge >= p['min_capacity'])
    check_true('charge not above maximum', b.current_charge <= p['max_capacity'])


class Model:
    """a user's transition model: remembers what it was given, answers with a known change"""
    def __init__(self, change):
        self.calls = []
        self.change = change

    def __call__(self, external_energy_change, **kw):
        self.calls.append((external_energy_change, kw))
        return self.change


def ob_user_model(sign):
    """a user's transition model gets the battery's parameters and its answer is the change of the charge"""
    change = num('change', 0) * -sign
    model = Model(change)
    b, q, p = battery(battery_transition_model=model)
    assume(q + change >= p['min_capacity'])
    assume(q + change <= p['max_capacity'])
    a = pos('a') * sign
    most, least = b.max_production, b.max_consumption
    before = b.state_dict()
    model.calls.clear()
    obs, reward, done, info = b.step(a, normalized=False)
    moved = -min(a, most) if sign > 0 else min(-a, least)
    check('one call', len(model.calls), 1)
    e, kw = model.calls[0]
    check('energy', e, moved)
    want = dict([(k, p[k]) for k in ('min_capacity', 'max_capacity', 'max_charge', 'max_discharge', 'efficiency', 'battery_cost_cycle')] +
                [('max_production', most), ('max_consumption', least), ('state_dict', before)])
    check('parameters', {k: kw[k] for k in want}, want)
    check('reported energy', info['provided_energy'] if sign > 0 else info['absorbed_energy'], min(a, most) if sign > 0 else min(-a, least))
    check('charge', b.current_charge, q + change)
    check('cost', reward, -p['battery_cost_cycle'] * change * -sign)


def ob_normalized(sign):
    """a normalised action moves the charge by the denormalised amount"""
    b, q, p = battery()
    lo = -p['max_discharge'] / p['efficiency']
    hi = p['max_charge'] * p['efficiency']
    x = num('x', 0, 1)
    a = b.from_normalized(np.array([x]), act=True)
    assume(a * sign > 0)
    b.step(np.array([x]), normalized=True)
    check('charge after normalised step', b.current_charge, after(q, p, a))


def ob_other_operations_keep_charge():
    b, q, p = battery()
    b.reset()
    limits(b, q, p)
    b.state, b.log, b.max_production, b.marginal_cost
    b.sample_action()
    b.sample_action(strict_bound=True)
    limits(b, q, p)


def ob_assignment():
    b, q, p = battery()
    v = num('v', 0)
    assume(p['min_capacity'] <= v)
    assume(v <= p['max_capacity'])
    b.current_charge = v
    limits(b, v, p)
    s = num('s', 0, 1)
    assume(p['min_capacity'] <= s * p['max_capacity'])
    b.soc = s
    limits(b, s * p['max_capacity'], p)


def ob_efficiency_validated():
    e = num('eff')
    r = raised(BatteryModule, 0, pos('cap'), pos('mc'), pos('md'), e, init_soc=0)
    check('efficiency outside (0, 1] refused', r, ite_(e > 0, e > 1, True))
    check('missing initial charge refused', raised(BatteryModule, 0, pos('cap'), pos('mc'), pos('md'), 1, exc='ValueError'), True)
