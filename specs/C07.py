from common import *

CASES = {
    'ob_renewable': [{'form': 'scalar'}, {'form': 'array'}],
    'ob_load': [{'form': 'scalar'}, {'form': 'array'}, {'form': 'empty'}],
    'ob_sign_convention': [{'sign': 1}, {'sign': -1}],
}


def ob_renewable(form):
    n, t = clock()
    m, s = renewable(n=n, t=t)
    avail = s[t]
    a = num('a', 0)
    check('available amount', m.max_production, avail)
    check('current renewable', m.current_renewable, avail)
    obs, reward, done, info = m.step(np.array([a]) if form == 'array' else a, normalized=False)
    check('provided energy', info['provided_energy'], min(a, avail))
    check('curtailment', info['curtailment'], avail - min(a, avail))
    check('provided plus curtailed', info['provided_energy'] + info['curtailment'], avail)
    check_true('never more than available', info['provided_energy'] <= avail)
    check_true('curtailment is not negative', info['curtailment'] >= 0)
    check('next available amount', m.max_production, s[t + 1])


def ob_renewable_normalized():
    n, t = clock()
    m, s = renewable(n=n, t=t)
    avail = s[t]
    x = num('x', 0, 1)
    a = m.from_normalized(np.array([x]), act=True)
    obs, reward, done, info = m.step(np.array([x]))
    check('provided energy', info['provided_energy'], min(a, avail))
    check('provided plus curtailed', info['provided_energy'] + info['curtailment'], avail)


def ob_load(form):
    n, t = clock()
    m, s = load(n=n, t=t)
    a = num('a', 0)
    check('current load', m.current_load, s[t])
    check('max consumption', m.max_consumption, s[t])
    if form == 'empty':
        act = np.array([])
    elif form == 'array':
        act = np.array([-a])
    else:
        act = -a
    obs, reward, done, info = m.step(act, normalized=False)
    check('absorbed energy is the demand', info, {'absorbed_energy': s[t]})
    check('next load', m.current_load, s[t + 1])
    obs, reward, done, info = m.step(0.0, normalized=False)
    check('absorbed energy is the demand, second step', info['absorbed_energy'], s[t + 1])


def ob_two_renewable_steps():
    n, t = clock()
    m, s = renewable(n=n, t=t)
    a, b = num('a', 0), num('b', 0)
    m.step(a, normalized=False)
    obs, reward, done, info = m.step(b, normalized=False)
    check('second split', info, {'provided_energy': min(b, s[t + 1]), 'curtailment': s[t + 1] - min(b, s[t + 1])})


def ob_sign_convention(sign):
    """available amounts and demands are non-negative for series given with either sign, in either shape"""
    n, t = clock()
    s = series('raw', n, None, 0)
    check('renewable', RenewableModule(time_series=s * sign, initial_step=t).current_renewable, s[t])
    check('load', LoadModule(time_series=s * sign, initial_step=t).current_load, s[t])
    s2 = s.reshape((-1, 1))
    check('renewable, column', RenewableModule(time_series=s2 * sign, initial_step=t).current_renewable, s[t])
    check('load, column', LoadModule(time_series=s2 * sign, initial_step=t).current_load, s[t])


def ob_mixed_signs_refused():
    a, b = num('a'), num('b')
    mixed = ite_(a > 0, b < 0, ite_(a < 0, b > 0, False))
    check('renewable refuses mixed signs', raised(RenewableModule, np.array([a, b, a]), exc='ValueError'), mixed)
    check('load refuses mixed signs', raised(LoadModule, np.array([b, a]), exc='ValueError'), mixed)


def ob_role():
    n, t = clock()
    m, s = renewable(n=n, t=t)
    a = pos('a')
    check('a renewable source never absorbs', raised(m.step, -a, normalized=False), True)
    l, s = load(n=n, t=t)
    check('a load never provides', raised(l.step, a, normalized=False), True)


def ob_past_the_end():
    """an episode that ends before the data: a run that continues still uses the data of each step"""
    s, p = vector('s', 4, lo=0), vector('p', 4, lo=0)
    l = LoadModule(time_series=s, final_step=2)
    r = RenewableModule(time_series=p, final_step=2)
    a = num('a', 0)
    for k in range(4):
        check('demand', l.max_consumption, s[k])
        check('available', r.max_production, p[k])
        check('absorbed', l.step(0.0, normalized=False)[3], {'absorbed_energy': s[k]})
        check('split', r.step(a, normalized=False)[3], {'provided_energy': min(a, p[k]), 'curtailment': p[k] - min(a, p[k])})
