from common import *
from pymgrid.utils.space import ModuleSpace

CASES = {
    'ob_module': [{'kind': 'battery'}, {'kind': 'genset'}, {'kind': 'grid'}, {'kind': 'load'}, {'kind': 'pv'}, {'kind': 'balancing'}],
    'ob_forecasting': [{'kind': 'load'}, {'kind': 'grid'}],
    'ob_space': [{'d': 1}, {'d': 3}],
    'ob_warning': [{'d': 1}, {'d': 2}],
    'ob_step_action': [{'kind': 'battery'}, {'kind': 'grid'}],
}
THOROUGH = {'ob_space': [{'d': 6}]}


def mk(kind, **kw):
    if kind == 'battery':
        return battery()[0]
    if kind == 'genset':
        return genset()[0]
    if kind == 'balancing':
        return balancing(0)
    n, t = clock()
    if kind == 'load':
        return load('', n, t, **kw)[0]
    if kind == 'pv':
        return renewable('', n, t, **kw)[0]
    return grid('', n, t, **kw)[0]


def spread(lo, hi):
    return ite_(hi == lo, 1, hi - lo)


def laws(label, space, to, back):
    """the affine laws for arbitrary values, inside the range or not"""
    lo, hi = space.unnormalized.low, space.unnormalized.high
    d = space.shape[0]
    x = vector(label + '.x', d)
    y = to(x)
    z = back(x)
    if d == 1:
        check(label + ' normalise', y, (x[0] - lo[0]) / spread(lo[0], hi[0]))
        check(label + ' denormalise', z, lo[0] + spread(lo[0], hi[0]) * x[0])
        check(label + ' there and back', back(y), x[0])
        check(label + ' back and there', to(z), x[0])
        check(label + ' scalar', to(x[0]), y)
        check(label + ' scalar back', back(x[0]), z)
        check(label + ' lower bound', to(lo), 0)
        check(label + ' upper bound', to(hi), ite_(hi[0] == lo[0], 0, 1))
    else:
        check(label + ' length', (len(y), len(z)), (d, d))
        b = back(y)
        a = to(z)
        for i in range(d):
            check(label + ' normalise', y[i], (x[i] - lo[i]) / spread(lo[i], hi[i]))
            check(label + ' denormalise', z[i], lo[i] + spread(lo[i], hi[i]) * x[i])
            check(label + ' there and back', b[i], x[i])
            check(label + ' back and there', a[i], x[i])
        check(label + ' lower bound', [v for v in to(lo)], [0] * d)
        u = to(hi)
        for i in range(d):
            check(label + ' upper bound', u[i], ite_(hi[i] == lo[i], 0, 1))
        check(label + ' wrong length refused', raised(to, vector(label + '.bad', d + 1), exc='TypeError'), True)
        check(label + ' wrong length refused back', raised(back, vector(label + '.bad', d + 1), exc='TypeError'), True)
    check(label + ' bounds of the unit space', ([v for v in space.normalized.low], [v for v in space.normalized.high]), ([0] * d, [1] * d))


def ob_module(kind):
    m = mk(kind)
    if m.action_space.shape[0] and kind != 'balancing':
        laws('action', m.action_space, lambda v: m.to_normalized(v, act=True), lambda v: m.from_normalized(v, act=True))
    if m.observation_space.shape[0]:
        laws('observation', m.observation_space, lambda v: m.to_normalized(v, obs=True), lambda v: m.from_normalized(v, obs=True))
    check('neither', raised(m.to_normalized, 0.5, exc='AssertionError'), True)
    check('both', raised(both, m, exc='AssertionError'), True)


def ob_state_out_of_range():
    """a state outside the bounds is mapped like any other"""
    q = num('q')
    b = BatteryModule(min_capacity=10, max_capacity=50, max_charge=20, max_discharge=20, efficiency=0.9, init_charge=q)
    check('normalised state', b.state_dict(normalized=True), {'soc': (q / 50 - 0.2) / 0.8, 'current_charge': (q - 10) / 40})
    check('reset', [v for v in b.reset()], [(q / 50 - 0.2) / 0.8, (q - 10) / 40])


def both(m):
    return m.from_normalized(0.5, act=True, obs=True)


def ob_forecasting(kind):
    m = mk(kind, forecaster='oracle', forecast_horizon=2)
    laws('observation', m.observation_space, lambda v: m.to_normalized(v, obs=True), lambda v: m.from_normalized(v, obs=True))


def ob_space(d):
    lo, hi = vector('lo', d), vector('hi', d)
    s = ModuleSpace(lo, hi)
    check('low', [v for v in s.unnormalized.low], [v for v in lo])
    check('high', [v for v in s.unnormalized.high], [v for v in hi])
    laws('space', s, s.normalize, s.denormalize)
    before = snapshot(s)
    s.normalize(vector('v', d))
    s.denormalize(vector('w', d))
    check_same('normalising leaves the space alone', before, snapshot(s))


def ob_inputs_kept():
    lo, hi = vector('lo', 2), vector('hi', 2)
    s = ModuleSpace(lo, hi)
    v = vector('v', 2)
    a, b = v[0], v[1]
    s.normalize(v)
    s.denormalize(v)
    check('the value passed in is not changed', (v[0], v[1]), (a, b))


def ob_warning(d):
    lo, hi = vector('lo', d), vector('hi', d)
    for i in range(d):
        assume(lo[i] <= hi[i])
    s = ModuleSpace(lo, hi)
    v = vector('v', d)
    for i in range(d):
        assume(lo[i] <= v[i])
        assume(v[i] <= hi[i])
    clear_events('warn')
    s.normalize(v)
    check('no warning inside the range', len(events('warn')), 0)
    w = vector('w', d)
    assume(w[0] > hi[0] + 1)
    assume(w[0] > 2 * hi[0])
    assume(hi[0] > 0)
    assume(lo[0] == 0)
    s.normalize(w)
    check('a warning outside the range', len(events('warn')), 1)


def ob_microgrid():
    n, t = clock()
    b1, q1, p1 = battery('b1', initial_step=t)
    b2, q2, p2 = battery('b2', initial_step=t)
    g, gs, gp = grid('', n, t)
    ld, ls = load('', n, t)
    m = Microgrid([ld, b1, g, b2, balancing(t)], add_unbalanced_module=False)
    act = {'battery': [num('a1'), num('a2')], 'grid': [num('ag')]}
    y = m.to_normalized(act, act=True)
    check('names', list(y.keys()), ['battery', 'grid'] if list(y.keys())[0] == 'battery' else ['grid', 'battery'])
    check('each by its own map', y['battery'], [b1.to_normalized(num('a1'), act=True), b2.to_normalized(num('a2'), act=True)])
    check('grid', y['grid'], [g.to_normalized(num('ag'), act=True)])
    z = m.from_normalized(y, act=True)
    check('there and back', (z['battery'], z['grid']), (act['battery'], act['grid']))
    obs = {'grid': [vector('og', 4)], 'load': [vector('ol', 1)], 'battery': [vector('o1', 2), vector('o2', 2)]}
    y = m.to_normalized(obs, obs=True)
    check('observations', [v for v in y['battery'][1]], [v for v in b2.to_normalized(obs['battery'][1], obs=True)])
    check('observations', [v for v in y['battery'][0]], [v for v in b1.to_normalized(obs['battery'][0], obs=True)])
    check('observations', [v for v in y['grid'][0]], [v for v in g.to_normalized(obs['grid'][0], obs=True)])
    check('observations', y['load'], [ld.to_normalized(obs['load'][0], obs=True)])
    z = m.from_normalized(y, obs=True)
    check('there and back', [v for v in z['grid'][0]], [v for v in obs['grid'][0]])


def ob_microgrid_space():
    b1, q1, p1 = battery('b1')
    b2, q2, p2 = battery('b2')
    n, t = clock()
    g, gs, gp = grid('', n, 0)
    m = Microgrid([b1, g, b2])
    for sp, act in ((m.microgrid_action_space, True), (m.microgrid_observation_space, False)):
        lo, hi = sp.unnormalized.low, sp.unnormalized.high
        x = {k: [vector(('act' if act else 'obs') + '.%s.%d' % (k, j), len(v)) for j, v in enumerate(vs)] for k, vs in lo.items()}
        y = sp.normalize(x)
        z = sp.denormalize(y)
        for k in x:
            for j in range(len(x[k])):
                for i in range(len(x[k][j])):
                    l, h = lo[k][j][i], hi[k][j][i]
                    check('normalise', y[k][j][i], (x[k][j][i] - l) / spread(l, h))
                    check('there and back', z[k][j][i], x[k][j][i])


def ob_step_action(kind):
    """a normalised action is the denormalised one"""
    m1, m2 = mk(kind), mk(kind)
    a = num('a', 0, 1)
    r1 = m1.step(a, normalized=True)
    r2 = m2.step(m2.from_normalized(a, act=True), normalized=False)
    check('same result', (r1[1], r1[2], r1[3]), (r2[1], r2[2], r2[3]))
    check('same state', [v for v in m1.state], [v for v in m2.state])


def ob_step_genset():
    m1, p = genset()
    m2, p = genset()
    a = vector('a', 2, lo=0, hi=1)
    r1 = m1.step(a, normalized=True)
    r2 = m2.step(m2.from_normalized(a, act=True), normalized=False)
    check('same result', (r1[1], r1[2], r1[3]), (r2[1], r2[2], r2[3]))
