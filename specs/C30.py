from common import *

CASES = {
    'ob_unit': [{'kind': 'battery'}, {'kind': 'genset'}, {'kind': 'grid'}, {'kind': 'renewable'}, {'kind': 'balancing'}],
    'ob_strict_grid': [{'up': 0}, {'up': 1}],
    'ob_strict_battery': [{'charge': 5, 'discharge': 2, 'efficiency': 0.5}, {'charge': 1, 'discharge': 6, 'efficiency': 0.9}, {'charge': 3, 'discharge': 3, 'efficiency': 1}],
    'ob_names': [{'flex': False}, {'flex': True}],
}


def make(kind):
    n, t = clock()
    if kind == 'battery':
        return battery(initial_step=t)[0]
    if kind == 'grid':
        return grid('', n, t, 4)[0]
    if kind == 'renewable':
        return renewable('', n, t)[0]
    if kind == 'balancing':
        return balancing(t)
    return genset(start_up_time=choice('up', 0, 1, 2), wind_down_time=choice('down', 0, 1), init_start_up=boolean('init'))[0]


def ob_unit(kind):
    m = make(kind)
    a = np.atleast_1d(m.sample_action())
    check('components', len(a), 2 if kind == 'genset' else 1)
    check('components of the space', m.action_space.shape[0], len(a))
    for x in a:
        check_true('at least zero', x >= 0)
        check_true('at most one', x <= 1)


def strict(m, sink=True):
    a = m.sample_action(strict_bound=True)
    check_true('at least zero', a >= 0)
    check_true('at most one', a <= 1)
    e = m.from_normalized(a, act=True)
    check_true('production limit', e <= m.max_production)
    if sink:
        check_true('consumption limit', -e <= m.max_consumption)


def ob_strict_renewable():
    strict(make('renewable'), False)


def ob_strict_grid(up):
    n, t = clock()
    m, s, p = grid('', n, t)
    assume(s[t, 3] == up)
    assume(p['max_import'] + p['max_export'] > 0)
    strict(m)


def ob_strict_battery(charge, discharge, efficiency):
    q = num('charge', 1, 10)
    strict(BatteryModule(min_capacity=1, max_capacity=10, max_charge=charge, max_discharge=discharge, efficiency=efficiency, init_charge=q))


def ob_strict_genset():
    m, p = genset(start_up_time=choice('up', 0, 1, 2), wind_down_time=choice('down', 0, 1), init_start_up=boolean('init'))
    a = m.sample_action(strict_bound=True)
    check('components', len(a), 2)
    for x in a:
        check_true('at least zero', x >= 0)
        check_true('at most one', x <= 1)
    e = m.from_normalized(a, act=True)
    m.update_status(e[0])
    check_true('production limit', e[1] <= m.max_production)
    check_true('minimum production', e[1] >= m.min_production)


def ob_battery_range():
    """the ends of the normalised range are full charging and full discharging"""
    m, q, p = battery()
    assume(p['max_charge'] + p['max_discharge'] > 0)
    check('full charge', m.from_normalized(0.0, act=True), -p['max_charge'] / p['efficiency'])
    check('full discharge', m.from_normalized(1.0, act=True), p['max_discharge'] * p['efficiency'])


def ob_grid_range():
    n, t = clock()
    m, s, p = grid('', n, t)
    assume(p['max_import'] + p['max_export'] > 0)
    check('full export', m.from_normalized(0.0, act=True), -p['max_export'])
    check('full import', m.from_normalized(1.0, act=True), p['max_import'])


def ob_genset_range():
    m, p = genset()
    assume(p['running_max_production'] > 0)
    check('low', list(m.from_normalized(np.array([0.0, 0.0]), act=True)), [0, 0])
    check('high', list(m.from_normalized(np.array([1.0, 1.0]), act=True)), [1, p['running_max_production']])


def micro():
    n = integer('n', 2)
    ld, ls = load('', n, 0)
    pv, ps = renewable('', n, 0)
    b0, b1, g, gr = make('battery'), make('battery'), make('genset'), grid('', n, 0)[0]
    return Microgrid([ld, ('pv', pv), ('b', battery('x')[0]), ('b', battery('y')[0]), ('gen', g), ('gr', gr)])


def ob_names(flex):
    m = micro()
    want = {'b': 2, 'gen': 1, 'gr': 1}
    if flex:
        want = {'b': 2, 'gen': 1, 'gr': 1, 'pv': 1, 'balancing': 1}
    a = m.sample_action(sample_flex_modules=flex)
    check('names', sorted(list(a.keys())), sorted(list(want.keys())))
    for k in want:
        check('entries', len(a[k]), want[k])
    e = m.get_empty_action(sample_flex_modules=flex)
    check('names of the empty action', sorted(list(e.keys())), sorted(list(want.keys())))
    for k in want:
        check('empty entries', e[k], [None] * want[k])
    check('generator', len(a['gen'][0]), 2)


def ob_fresh():
    """two empty actions are independent of each other and of the microgrid"""
    m = micro()
    a, b = m.get_empty_action(), m.get_empty_action()
    a['b'][0] = 1.0
    check('independent', b['b'], [None, None])
    check('independent of later ones', m.get_empty_action()['b'], [None, None])


def ob_sampled_steps():
    """a sampled action can be passed to a step"""
    n = integer('n', 2)
    ld, ls = load('', n, 0)
    m = Microgrid([ld, ('b', battery('x')[0])])
    assume(num('xmax_charge', 0) + num('xmax_discharge', 0) > 0)
    a = m.sample_action()
    m.run(a)
    check('stepped', m.current_step, 1)
