from common import *
from pymgrid.algos import RuleBasedControl
from pymgrid.envs import DiscreteMicrogridEnv, ContinuousMicrogridEnv

CASES = {
    'ob_own_series': [{'kind': 'load'}, {'kind': 'pv'}, {'kind': 'grid'}, {'kind': 'grid3'}],
    'ob_build': [{'named': True}, {'named': False}],
    'ob_series': [{'kind': 'load', 'sign': 1}, {'kind': 'load', 'sign': -1}, {'kind': 'pv', 'sign': 1}, {'kind': 'pv', 'sign': -1},
                  {'kind': 'grid', 'sign': 1}, {'kind': 'grid3', 'sign': 1}],
    'ob_env': [{'kind': 'discrete', 'flat': True}, {'kind': 'discrete', 'flat': False}, {'kind': 'continuous', 'flat': True},
               {'kind': 'continuous', 'flat': False}],
    'ob_rbc': [{'shaped': False}, {'shaped': True}],
    'ob_control': [{'normalized': True}, {'normalized': False}],
    'ob_module_action': [{'normalized': True}, {'normalized': False}],
    'ob_instances': [{'kind': 'battery'}, {'kind': 'genset'}, {'kind': 'grid'}, {'kind': 'load'}, {'kind': 'pv'}, {'kind': 'balancing'}],
}


def parts(n, t, **kw):
    b, q, p = battery(initial_step=t)
    g, gp = genset(initial_step=t, start_up_time=1, wind_down_time=1)
    return [load('', n, t, **kw)[0], renewable('', n, t, **kw)[0], grid('', n, t, **kw)[0], b, g, balancing(t)]


def clock3():
    n = integer('n', 5)
    t = integer('t', 0)
    assume(t + 4 < n)
    return n, t


def control():
    return {'battery': [0.0], 'grid': [0.0], 'genset': [np.array([0, 0])]}


def ob_build(named):
    """a microgrid works on its own modules, whatever is done to it"""
    n, t = clock3()
    mods = parts(n, t)
    if named:
        mods = [('load', mods[0]), ('pv', mods[1]), ('grid', mods[2]), ('battery', mods[3]), ('genset', mods[4]), mods[5]]
    before = snapshot(mods)
    m = Microgrid(mods, add_unbalanced_module=False)
    check_same('after building', before, snapshot(mods))
    other = Microgrid(mods, add_unbalanced_module=False)
    mid = snapshot(other)
    m.run(control(), normalized=False)
    check_same('after a step', before, snapshot(mods))
    m.set_forecaster('oracle', forecast_horizon=2)
    m.reset()
    m.run(control(), normalized=True)
    check_same('after more steps', before, snapshot(mods))
    check_same('another microgrid of the same modules', mid, snapshot(other))
    k = len(mods)
    check('list', k, 6)


def ob_build_adds():
    """the balancing module that is added is not added to the caller's list"""
    n, t = clock3()
    mods = [load('', n, 0)[0], renewable('', n, 0)[0], battery()[0]]
    before = snapshot(mods)
    m = Microgrid(mods)
    m.run({'battery': [0.0]}, normalized=False)
    check_same('modules', before, snapshot(mods))
    check('list', len(mods), 3)
    check('modules of the microgrid', len(m.modules.to_list()), 4)


def ob_trajectory_and_limits():
    """steps set on the microgrid reach its own modules only"""
    n, t = clock3()
    mods = parts(n, t)
    before = snapshot(mods)
    m = Microgrid(mods, add_unbalanced_module=False, trajectory_func=lambda lo, hi: (lo + 1, hi))
    m.reset()
    m.initial_step = t + 2
    m.final_step = n - 1
    m.reset()
    check_same('modules', before, snapshot(mods))


def ob_series(kind, sign):
    """the arrays a module is built from stay as they are"""
    n, t = clock3()
    if kind == 'load':
        s = series('s', n, None, 0)
    elif kind == 'pv':
        s = series('s', n, None, 0)
    elif kind == 'grid':
        s = series('s', n, 4, 0)
        assume(((s[:, 3] == 0) | (s[:, 3] == 1)).all())
    else:
        s = series('s', n, 3, 0)
    s = s * sign
    before = snapshot(s)
    if kind == 'load':
        m = LoadModule(time_series=s, initial_step=t, forecaster='oracle', forecast_horizon=2)
    elif kind == 'pv':
        m = RenewableModule(time_series=s, initial_step=t, forecaster='oracle', forecast_horizon=2)
    else:
        m = GridModule(max_import=num('mi', 0), max_export=num('me', 0), time_series=s, initial_step=t, forecaster='oracle', forecast_horizon=2)
    check_same('after building', before, snapshot(s))
    m.step(0.0 if kind == 'load' else num('amount', 0, 1), normalized=False)
    m.state_dict(normalized=True)
    m.forecast()
    m.reset()
    check_same('after use', before, snapshot(s))


def ob_own_series(kind):
    """a module keeps its data to itself: neither side sees what the other writes"""
    s = vector('s', 4, 4, lo=0, hi=0.4) if kind == 'grid' else vector('s', 4, 3, lo=0) if kind == 'grid3' else vector('s', 4, lo=0)
    if kind == 'grid':
        s[:, 3] = 1.0
    if kind == 'load':
        m = LoadModule(time_series=s)
    elif kind == 'pv':
        m = RenewableModule(time_series=s)
    else:
        m = GridModule(max_import=num('mi', 0), max_export=num('me', 0), time_series=s)
    mine = snapshot(s)
    m.time_series[1] = 0.0
    check_same('series of the caller', mine, snapshot(s))
    other = snapshot(m.time_series)
    s[2] = 7.0
    check_same('series of the module', other, snapshot(m.time_series))


def ob_env(kind, flat):
    n, t = clock3()
    mods = parts(n, t)
    before = snapshot(mods)
    cls = DiscreteMicrogridEnv if kind == 'discrete' else ContinuousMicrogridEnv
    e = cls(mods, add_unbalanced_module=False, flat_spaces=flat)
    m = Microgrid(mods, add_unbalanced_module=False)
    mid = snapshot(m)
    f = cls.from_microgrid(m, flat_spaces=flat)
    check_same('after building', before, snapshot(mods))
    check_same('microgrid after building', mid, snapshot(m))
    for env in (e, f):
        env.reset()
        env.set_forecaster('oracle', forecast_horizon=2)
        env.reset()
    check_same('modules', before, snapshot(mods))
    check_same('microgrid', mid, snapshot(m))


def ob_env_step(kind='discrete'):
    n, t = clock3()
    ld = load('', n, t)[0]
    mods = [ld, ('src', Quiet()), balancing(t)]
    mods[1][1].initial_step = t
    mods[1][1].reset()
    m = Microgrid(mods, add_unbalanced_module=False)
    before, mid = snapshot(mods), snapshot(m)
    e = DiscreteMicrogridEnv(mods, add_unbalanced_module=False)
    f = DiscreteMicrogridEnv.from_microgrid(m)
    e.step(0)
    f.step(0)
    e.reset()
    check_same('modules', before, snapshot(mods))
    check_same('microgrid', mid, snapshot(m))


def ob_env_action(flat=False):
    n, t = clock3()
    b, q, p = battery(initial_step=t)
    e = ContinuousMicrogridEnv([load('', n, t)[0], b, balancing(t)], add_unbalanced_module=False, flat_spaces=False)
    a = {'battery': [np.array([num('a', 0, 1)])]}
    before = snapshot(a)
    e.step(a)
    check_same('action', before, snapshot(a))


class Quiet(Probe):
    module_type = ('quiet', 'controllable')

    def __init__(self):
        super().__init__('quiet', True, False, idle=True)


def ob_rbc(shaped):
    n, t = clock3()
    q = Quiet()
    q.initial_step = t
    q.reset()
    m = Microgrid([load('', n, t)[0], ('src', q), balancing(t)], add_unbalanced_module=False, trajectory_func=(lambda lo, hi: (lo + 1, hi)) if shaped else None,
                  reward_shaping_func=(lambda info, cost: 0.0) if shaped else None)
    before = snapshot(m)
    r = RuleBasedControl(m)
    check_same('after building', before, snapshot(m))
    r.run(max_steps=2)
    check_same('after running', before, snapshot(m))
    r.reset()
    check_same('after resetting', before, snapshot(m))
    check('own microgrid', r.microgrid is m, False)


def ob_rbc_list():
    """a priority list handed in, and the lists handed out, are used but not altered"""
    mods = [('p0', Probe('p0', True, True, idle=True)), ('p1', Probe('p1', True, True, idle=True)), ('load', FixedProbe('l', False, True, final_step=1000))]
    m = Microgrid(mods)
    lists = RuleBasedControl(m).get_priority_lists(False)
    pl = lists[1]
    before = snapshot(pl)
    r = RuleBasedControl(m, priority_list=pl)
    r.run(max_steps=1)
    check_same('list', before, snapshot(pl))
    check('kept', list(r.priority_list) == list(pl), True)


def ob_control(normalized):
    n, t = clock3()
    b, q, p = battery(initial_step=t)
    g, gp = genset(initial_step=t)
    for mods, u in (([b], {'battery': [num('b', 0, 1)]}),
                    ([grid('', n, t)[0]], {'grid': num('g', 0, 1)}),
                    ([g], {'genset': [np.array([choice('s', 0, 1), num('p', 0, 1)])]})):
        m = Microgrid([load('', n, t)[0]] + mods + [balancing(t)], add_unbalanced_module=False)
        keys = list(u.keys())
        before = snapshot(u)
        m.run(u, normalized=normalized)
        check_same('control', before, snapshot(u))
        check('entries', list(u.keys()), keys)


def ob_refused_control():
    """also when the step is refused"""
    n, t = clock3()
    m = Microgrid(parts(n, t), add_unbalanced_module=False)
    u = {'battery': [0.0], 'grid': [0.0]}
    before = snapshot(u)
    check('refused', raised(m.run, u, normalized=False), True)
    check_same('control', before, snapshot(u))


def ob_module_action(normalized):
    n, t = clock3()
    for m, k in zip(parts(n, t)[1:5], (1, 1, 1, 2)):
        a = np.array([0.5]) if k == 1 else np.array([1.0, 0.5])
        before = snapshot(a)
        m.to_normalized(a, act=True)
        check_same('normalize', before, snapshot(a))
        m.from_normalized(a, act=True)
        check_same('denormalize', before, snapshot(a))
    for status in (1.0, 0.75):
        u = np.array([status, num('p', 0, 1)])
        before = snapshot(u)
        g, _ = genset()
        g.step(u, normalized=normalized)
        check_same('genset action', before, snapshot(u))


def one(kind, tag, n, t):
    if kind == 'battery':
        return battery(tag, initial_step=t)[0]
    if kind == 'genset':
        return genset(tag, initial_step=t, start_up_time=1, wind_down_time=1)[0]
    if kind == 'grid':
        return grid(tag, n, t)[0]
    if kind == 'load':
        return load(tag, n, t)[0]
    if kind == 'pv':
        return renewable(tag, n, t)[0]
    return balancing(t)


def ob_instances(kind):
    """modules of one class are independent of each other"""
    n, t = clock3()
    a, b = one(kind, 'a', n, t), one(kind, 'b', n, t)
    before = snapshot(b)
    act = np.array([1.0, 0.5]) if kind == 'genset' else 0.0 if kind == 'load' else 0.5
    normalized = kind not in ('load', 'balancing')
    a.step(act, normalized=normalized)
    if kind in ('grid', 'load', 'pv'):
        a.set_forecaster('oracle', forecast_horizon=2)
    a.step(act, normalized=normalized)
    check_same('other instance', before, snapshot(b))
    a.reset()
    a.raise_errors = True
    check_same('other instance at the end', before, snapshot(b))
    c = one(kind, 'c', n, t)
    check('log of a new instance', len(c.logger), 0)
    check('step of a new instance', c.current_step, t)


def ob_infos():
    """what a step handed out is not altered by later steps"""
    n, t = clock3()
    m = Microgrid(parts(n, t), add_unbalanced_module=False)
    obs, reward, done, info = m.run({'battery': [num('a', 0)], 'grid': [num('g', 0)], 'genset': [np.array([1, 0])]}, normalized=False)
    frame = m.log
    before = snapshot((obs, reward, done, info))
    state = m.state_dict()
    sb = snapshot(state)
    m.run({'battery': [num('c', 0)], 'grid': [0.0], 'genset': [np.array([0, 0])]}, normalized=False)
    check_same('result of the first step', before, snapshot((obs, reward, done, info)))
    check_same('state', sb, snapshot(state))
    check('frame', len(frame), 1)


def ob_as_flex():
    """what is done to one grid module is not done to the others"""
    a, b = [GridModule(max_import=num('mi', 0), max_export=num('me', 0), time_series=vector(x, 4, 3, lo=0)) for x in ('s', 'r')]
    kind = b.module_type
    before = snapshot(b)
    a.as_flex()
    check('converted', a.module_type[1], 'flex')
    check('kind of the other', b.module_type, kind)
    check('kind of a new one', GridModule(max_import=1.0, max_export=1.0, time_series=vector('q', 4, 3, lo=0)).module_type, kind)
    m = Microgrid([LoadModule(time_series=vector('l', 4, lo=0)), ('one', a), ('two', b)])
    check('flexible ones', [x.module_type[1] for x in m.flex.iterlist()], ['flex'] * len(list(m.flex.iterlist())))
    check('one of them', m.modules['one'][0] in list(m.flex.iterlist()), True)
    a.as_fixed()
    check('kind of the other', b.module_type, kind)
    check_same('the other', before, snapshot(b))
