from common import *
from pymgrid.microgrid.trajectory import DeterministicTrajectory, StochasticTrajectory, FixedLengthStochasticTrajectory


def bounds():
    a, z = integer('lo', 0), integer('hi', 1)
    assume(a < z)
    return a, z


def inside(label, r, a, z):
    s, e = r
    check_true(label + ': start not before the lower bound', s >= a)
    check_true(label + ': end not after the upper bound', e <= z)
    check_true(label + ': start before the end', s < e)
    check(label + ': integers', (isinstance(s, int), isinstance(e, int)), (True, True))


def ob_stochastic():
    a, z = bounds()
    inside('stochastic', StochasticTrajectory()(a, z), a, z)


def ob_stochastic_reach():
    """nothing inside the bounds is excluded from the start: a window of one step is admissible"""
    a = integer('lo', 0)
    s, e = StochasticTrajectory()(a, a + 1)
    check('only window', (s, e), (a, a + 1))


def ob_fixed_length():
    a, z = bounds()
    l = integer('length', 1)
    o = outcome(FixedLengthStochasticTrajectory(l), a, z)
    check('refused exactly when too narrow', o[0], ite_(z - a < l, 'raise', 'ok'))
    assume(z - a >= l)
    inside('fixed length', o[1], a, z)
    check('length', o[1][1] - o[1][0], l)


def ob_fixed_length_refuses():
    a, z = bounds()
    l = integer('length', 1)
    assume(z - a < l)
    check('refused', raised(FixedLengthStochasticTrajectory(l), a, z, exc='ValueError'), True)


def ob_deterministic():
    a, z = bounds()
    s, e = integer('s', 0), integer('e', 1)
    check('returns its own bounds', DeterministicTrajectory(s, e)(a, z), (s, e))
    check('whatever the bounds', DeterministicTrajectory(s, e)(a + 1, z + 5), (s, e))


def mg(n, t, **kw):
    b, q, p = battery(initial_step=t)
    ld, ls = load('', n, t)
    pv, ps = renewable('', n, t)
    return Microgrid([b, ld, pv, balancing(t)], add_unbalanced_module=False, **kw)


def ob_accept():
    n, t = clock()
    s, e = integer('s', 0), integer('e', 0)
    good = ite_(s >= t, ite_(e <= n, s < e, False), False)
    tr = lambda initial_step, final_step: (s, e)
    o = outcome(mg, n, t, trajectory_func=tr)
    check('accepted exactly when inside the bounds', o[0], ite_(good, 'ok', 'raise'))


def ob_refusal_kind():
    n, t = clock()
    s, e = integer('s', 0), integer('e', 0)
    tr = lambda initial_step, final_step: (s, e)
    good = ite_(s >= t, ite_(e <= n, s < e, False), False)
    assume(ite_(good, False, True))
    check('ValueError', raised(mg, n, t, trajectory_func=tr, exc='ValueError'), True)


def ob_not_a_pair():
    n, t = clock()
    check('not callable', raised(mg, n, t, trajectory_func=5, exc='TypeError'), True)
    check('no pair', raised(mg, n, t, trajectory_func=lambda initial_step, final_step: t, exc='TypeError'), True)
    check('three values', raised(mg, n, t, trajectory_func=lambda initial_step, final_step: (t, t + 1, t + 1), exc='TypeError'), True)
    check('fractional', raised(mg, n, t, trajectory_func=lambda initial_step, final_step: (t, 0.5), exc='TypeError'), True)
    check('fractional start', raised(mg, n, t, trajectory_func=lambda initial_step, final_step: (0.5, n), exc='TypeError'), True)


def ob_given_bounds():
    """the function is called with the bounds of the microgrid, at construction and at every reset"""
    n, t = clock()
    seen = []

    def tr(initial_step, final_step):
        seen.append((initial_step, final_step))
        return t + len(seen) - 1 if False else t, n - 0
    m = mg(n, t, trajectory_func=tr)
    check('at construction', seen, [(t, n)])
    m.reset()
    m.reset()
    check('at every reset', seen, [(t, n)] * 3)


def ob_applied():
    n, t = clock()
    s1, e1 = integer('s1', 0), integer('e1', 0)
    s2, e2 = integer('s2', 0), integer('e2', 0)
    for s, e in ((s1, e1), (s2, e2)):
        assume(t <= s)
        assume(s < e)
        assume(e <= n)
    calls = []

    def tr(initial_step, final_step):
        calls.append(1)
        return (s1, e1) if len(calls) <= 2 else (s2, e2)
    m = mg(n, t, trajectory_func=tr)
    check('before the first reset', [x.current_step for x in m.modules.iterlist()], [t] * 4)
    for s, e in ((s1, e1), (s2, e2)):
        m.reset()
        check('start applied', [x.initial_step for x in m.modules.iterlist()], [s] * 4)
        check('time at the start', [x.current_step for x in m.modules.iterlist()], [s] * 4)
        check('end applied', [x.final_step for x in m.modules.iterlist() if hasattr(x, 'final_step')], [e] * 2)
        check('own bounds unchanged', (m.initial_step, m.final_step), (t, n))
        check('current step', m.current_step, s)


def ob_episode_length():
    """an episode of a trajectory is done after exactly end - start steps"""
    n, t = clock()
    s = integer('s', 0)
    assume(t <= s)
    assume(s + 2 < n)
    m = mg(n, t, trajectory_func=lambda initial_step, final_step: (s, s + 2))
    m.reset()
    r1 = m.run({'battery': [0.0]}, normalized=False)
    r2 = m.run({'battery': [0.0]}, normalized=False)
    check('done', (r1[2], r2[2]), (False, True))


def ob_stochastic_in_microgrid():
    n, t = clock()
    m = mg(n, t, trajectory_func=StochasticTrajectory())
    m.reset()
    s, e = m.modules['load'][0].initial_step, m.modules['load'][0].final_step
    check_true('start', s >= t)
    check_true('end', e <= n)
    check_true('order', s < e)
    check('time at the start', [x.current_step for x in m.modules.iterlist()], [s] * 4)
    check('own bounds unchanged', (m.initial_step, m.final_step), (t, n))


def ob_no_trajectory():
    n, t = clock()
    m = mg(n, t)
    m.reset()
    check('bounds', [(x.initial_step, x.current_step) for x in m.modules.iterlist()], [(t, t)] * 4)
    check('end', [x.final_step for x in m.modules.iterlist() if hasattr(x, 'final_step')], [n] * 2)
