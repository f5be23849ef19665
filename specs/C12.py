from common import *

CASES = {
    'ob_lockstep': [{'k': 2}],
    'ob_module_done': [{'kind': 'load'}, {'kind': 'pv'}, {'kind': 'grid'}],
    'ob_final_step': [{'kind': 'load'}, {'kind': 'pv'}, {'kind': 'grid'}],
    'ob_microgrid_done': [{'k': 2}],
}
THOROUGH = {'ob_lockstep': [{'k': 4}]}


def mk(kind, n, t, **kw):
    if kind == 'load':
        return load('', n, t, **kw)[0]
    if kind == 'pv':
        return renewable('', n, t, **kw)[0]
    return grid('', n, t, **kw)[0]


def parts(n, t, **kw):
    b, q, p = battery(initial_step=t)
    g, gp = genset(initial_step=t)
    return [load('', n, t, **kw)[0], renewable('', n, t, **kw)[0], grid('', n, t, **kw)[0], b, g, balancing(t)]


def run(m, normalized=False):
    return m.run({'battery': [0.0], 'grid': [0.0], 'genset': [np.array([0, 0])]}, normalized=normalized)


def ob_lockstep(k):
    n, t = clock()
    assume(t + k < n)
    m = Microgrid(parts(n, t), add_unbalanced_module=False)
    check('initial step', (m.initial_step, m.current_step, m.final_step), (t, t, n))
    for j in range(k):
        check('steps before', [x.current_step for x in m.modules.iterlist()], [t + j] * 6)
        run(m)
        check('steps after', [x.current_step for x in m.modules.iterlist()], [t + j + 1] * 6)
        check('microgrid step', m.current_step, t + j + 1)
    m.reset()
    check('steps after reset', [x.current_step for x in m.modules.iterlist()], [t] * 6)
    check('logs after reset', [x.log_dict() for x in m.modules.iterlist()], [{}] * 6)
    check('microgrid log after reset', len(m.log), 0)
    check('microgrid step after reset', (m.current_step, m.initial_step, m.final_step), (t, t, n))


def ob_module_done(kind):
    """done exactly when the step taken is the last one before the final step"""
    n = integer('n', 2)
    t = integer('t', 0)
    f = integer('f', 1)
    assume(t < f)
    assume(f <= n)
    m = mk(kind, n, t, final_step=f)
    obs, reward, done, info = m.step(0.0, normalized=False)
    check('done', done, t + 1 == f)
    check('step', m.current_step, t + 1)
    assume(t + 2 < n)
    obs, reward, done, info = m.step(0.0, normalized=False)
    check('done after the second step', done, t + 2 >= f)
    obs, reward, done, info = m.step(0.0, normalized=False)
    check('done after the third step', done, t + 3 >= f)
    check('step', m.current_step, t + 3)


def ob_others_never_done():
    b, q, p = battery()
    g, gp = genset()
    u = balancing()
    check('battery', b.step(0.0, normalized=False)[2], False)
    check('genset', g.step(np.array([1, 0]), normalized=False)[2], False)
    check('balancing', u.step(0.0, normalized=False)[2], False)


def ob_final_step(kind):
    n = integer('n', 2)
    f = integer('f')
    t = integer('t', 0)
    assume(t < n)
    assume(f <= n)
    r = outcome(mk, kind, n, 0, final_step=f)
    assume(r[0] == 'ok')
    m = r[1]
    check('final step', m.final_step, ite_(f <= 0, n, f))


def ob_final_step_setter():
    n = integer('n', 2)
    t = integer('t', 0)
    assume(t < n)
    m = mk('load', n, t)
    check('default is the end of the series', m.final_step, n)
    f = integer('f')
    r = raised(set_final, m, f, exc='ValueError')
    check('refused when not after the initial step', r, ite_(f <= 0, False, f <= t))
    assume(ite_(f <= 0, True, f > t))
    check('final step', m.final_step, ite_(f <= 0, n, f))
    check('fractional final step refused', raised(set_final, m, 1.5, exc='ValueError'), True)


def set_final(m, f):
    m.final_step = f


def ob_microgrid_done(k):
    n, t = clock()
    f = integer('f', 1)
    assume(t < f)
    assume(f <= n)
    assume(t + k < n)
    assume(t + k - 1 < f)
    m = Microgrid(parts(n, t, final_step=f), add_unbalanced_module=False)
    check('final step', m.final_step, f)
    for j in range(k):
        obs, reward, done, info = run(m)
        check('done', done, t + j + 1 == f)


def ob_microgrid_final_step():
    n, t = clock()
    m = Microgrid(parts(n, 0), add_unbalanced_module=False)
    f = integer('f', 1)
    assume(f <= n)
    m.final_step = f
    check('final step everywhere', [x.final_step for x in m.modules.iterlist() if hasattr(x, 'final_step')], [f, f, f])
    check('microgrid', m.final_step, f)
    obs, reward, done, info = run(m)
    check('done', done, f == 1)


def ob_microgrid_initial_step():
    n, t = clock()
    m = Microgrid(parts(n, 0), add_unbalanced_module=False)
    m.initial_step = t
    check('initial step everywhere', [x.initial_step for x in m.modules.iterlist()], [t] * 6)
    m.reset()
    check('current step', [x.current_step for x in m.modules.iterlist()], [t] * 6)
    check('microgrid', (m.initial_step, m.current_step), (t, t))


def ob_past_the_end():
    """after the last step every module still reports a step and an observation"""
    n = integer('n', 2)
    ld = LoadModule(time_series=series('s', n, None, 0), initial_step=n - 1)
    obs, reward, done, info = ld.step(0.0, normalized=False)
    check('done', done, True)
    check('step', ld.current_step, n)
