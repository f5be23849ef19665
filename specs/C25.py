from common import *
from pymgrid.envs import DiscreteMicrogridEnv, ContinuousMicrogridEnv

CASES = {
    'ob_observations': [{'kind': 'discrete', 'flat': True}, {'kind': 'discrete', 'flat': False}, {'kind': 'continuous', 'flat': True},
                        {'kind': 'continuous', 'flat': False}],
    'ob_step': [{'kind': 'discrete', 'flat': True}, {'kind': 'discrete', 'flat': False}, {'kind': 'continuous', 'flat': True},
                {'kind': 'continuous', 'flat': False}],
    'ob_step_keys': [{'flat': True}, {'flat': False}],
    'ob_keys': [{'flat': True, 'keys': ['soc']}, {'flat': False, 'keys': ['soc']}, {'flat': True, 'keys': ['load_current', 'soc']},
                {'flat': True, 'keys': ['soc', 'current_charge', 'load_current']}, {'flat': False, 'keys': ['soc', 'current_charge', 'load_current']},
                {'flat': True, 'keys': ['current_charge', 'soc', 'current_status']}, {'flat': False, 'keys': ['current_status', 'renewable_current']},
                {'flat': True, 'keys': ['steps_until_up', 'steps_until_down', 'current_status']}, {'flat': False, 'keys': ['steps_until_up', 'current_status', 'soc']}],
    'ob_continuous_action': [{'flat': True}, {'flat': False}],
    'ob_forecaster': [{'flat': True}, {'flat': False}],
    'ob_from_microgrid': [{'flat': True}, {'flat': False}],
}


def modules(n, t):
    ld, ls = load('', n, t)
    pv, ps = renewable('', n, t)
    b0, q0, p0 = battery('b0', initial_step=t)
    b1, q1, p1 = battery('b1', initial_step=t)
    g, gp = genset(initial_step=t)
    return [('zz', b0), ('zz', b1), ('genset', g), ld, ('pv', pv), balancing(t)]


def make(kind='discrete', **kw):
    n, t = clock()
    cls = DiscreteMicrogridEnv if kind == 'discrete' else ContinuousMicrogridEnv
    return cls(modules(n, t), add_unbalanced_module=False, **kw)


def vector_of(e, keys):
    """reference: normalised state of every module, restricted to the keys, in the order of the space"""
    out = []
    for name in sorted(e.modules.names()):
        for m in e.modules[name]:
            sd = m.state_dict(normalized=True)
            out.extend([sd[k] for k in (keys or list(sd.keys())) if k in sd])
    return out


def nested_of(e, keys):
    out = {}
    for name in sorted(e.modules.names()):
        per = []
        for m in e.modules[name]:
            sd = m.state_dict(normalized=True)
            v = [sd[k] for k in (keys or list(sd.keys())) if k in sd]
            if v or not keys:
                per.append(v)
        if per:
            out[name] = per
    return out


def compare(label, e, obs, flat, keys):
    if flat:
        want = vector_of(e, keys)
        check(label + ': length', len(obs), len(want))
        check(label + ': values', list(obs), want)
        check(label + ': space', e.observation_space.shape[0], len(want))
        check(label + ': space bounds', list(e.observation_space.low) + list(e.observation_space.high), [0] * len(want) + [1] * len(want))
    else:
        want = nested_of(e, keys)
        check(label + ': names', sorted(list(obs.keys())), sorted(list(want.keys())))
        check(label + ': names of the space', sorted(list(e.observation_space.spaces.keys())), sorted(list(want.keys())))
        for name in want:
            check(label + ': values', [list(o) for o in obs[name]], want[name])
            check(label + ': space', [s.shape[0] for s in e.observation_space.spaces[name].spaces], [len(v) for v in want[name]])


def ob_observations(kind, flat):
    e = make(kind, flat_spaces=flat)
    compare('reset', e, e.reset(), flat, None)


def small(cls, **kw):
    n, t = clock()
    ld, ls = load('', n, t)
    b, q, p = battery('', initial_step=t)
    return cls([('zz', b), ld, balancing(t)], add_unbalanced_module=False, **kw)


def ob_step(kind, flat):
    e = small(DiscreteMicrogridEnv if kind == 'discrete' else ContinuousMicrogridEnv, flat_spaces=flat)
    a = 0 if kind == 'discrete' else vector('a', 1, lo=0, hi=1) if flat else {'zz': [vector('a', 1, lo=0, hi=1)]}
    obs, reward, done, info = e.step(a)
    compare('step', e, obs, flat, None)
    check('reward', reward, e.get_log()[('balance', 0, 'reward')].iloc[0])


def ob_step_keys(flat):
    keys = ['soc', 'load_current', 'current_charge']
    e = small(DiscreteMicrogridEnv, flat_spaces=flat, observation_keys=keys)
    obs, reward, done, info = e.step(0)
    compare('step', e, obs, flat, keys)


def ob_keys(flat, keys):
    e = make('discrete', flat_spaces=flat, observation_keys=keys)
    compare('reset', e, e.reset(), flat, keys)


def ob_key_string():
    e = make('discrete', observation_keys='soc')
    compare('reset', e, e.reset(), True, ['soc'])


def ob_bad_key():
    check('unknown key refused', raised(make, 'discrete', observation_keys=['soc', 'nothing'], exc='NameError'), True)


class Asked(Probe):
    module_type = ('asked', 'controllable')

    def step(self, action, normalized=True):
        self.journal.append((action, normalized))
        return super().step(action, normalized=normalized)


def simple(**kw):
    n, t = clock()
    ld, ls = load('', n, t)
    b, q, p = battery('', initial_step=t)
    return [ld, b, balancing(t)], ls[t], kw


def ob_pass_through():
    """reward, flag and information are those of the microgrid step"""
    mods, l, _ = simple()
    e = ContinuousMicrogridEnv(mods, add_unbalanced_module=False, flat_spaces=False, reward_shaping_func=lambda info, cost: num('shaped'))
    m = Microgrid(mods, add_unbalanced_module=False, reward_shaping_func=lambda info, cost: num('shaped'))
    a = {'battery': [vector('x', 1, lo=0, hi=1)]}
    o1, r1, d1, i1 = e.step(a)
    o2, r2, d2, i2 = m.run(a)
    check('reward', r1, r2)
    check('shaped', r1, num('shaped'))
    check('done', d1, d2)
    check('info', i1, i2)


def ob_continuous_action(flat):
    n = integer('n', 2)
    ld, ls = load('', n, 0)
    mods = [('zz', Asked('p0')), ('b', Asked('p1')), ('zz', Asked('p2'))]
    e = ContinuousMicrogridEnv([ld] + mods, flat_spaces=flat)
    e.reset()
    x, y, z = num('x', 0, 1), num('y', 0, 1), num('z', 0, 1)
    if flat:
        check('size', e.action_space.shape[0], 3)
        e.step(np.array([x, y, z]))
    else:
        check('names', list(e.action_space.spaces.keys()), ['b', 'zz'])
        e.step({'zz': [np.array([y]), np.array([z])], 'b': [np.array([x])]})
    check('own component', [np.array(m.journal[0][0]).item() for m in (e.modules['b'][0], e.modules['zz'][0], e.modules['zz'][1])], [x, y, z])
    check('normalised', [m.journal[0][1] for m in (e.modules['b'][0], e.modules['zz'][0], e.modules['zz'][1])], [True, True, True])


def ob_forecaster(flat):
    n, t = clock()
    ld, ls = load('', n, t)
    b0, q0, p0 = battery('b0', initial_step=t)
    e = DiscreteMicrogridEnv([('b', b0), ld, balancing(t)], add_unbalanced_module=False, flat_spaces=flat)
    e.set_forecaster('oracle', forecast_horizon=3)
    obs = e.reset()
    if flat:
        check('length', len(obs), 6)
        check('space', e.observation_space.shape[0], 6)
    else:
        check('space', e.observation_space.spaces['load'].spaces[0].shape[0], 4)
        check('length', len(obs['load'][0]), 4)


def ob_from_microgrid(flat):
    mods, l, _ = simple()
    shaper = lambda info, cost: num('shaped')
    trajectory = lambda lo, hi: (lo, hi)
    m = Microgrid(mods, add_unbalanced_module=False, reward_shaping_func=shaper, trajectory_func=trajectory)
    e = DiscreteMicrogridEnv.from_microgrid(m, flat_spaces=flat)
    check('modules', [x.name for x in e.modules.to_list()], [x.name for x in m.modules.to_list()])
    check('flat', e.flat_spaces, flat)
    check_same('state', snapshot([x.state_dict() for x in m.modules.to_list()]), snapshot([x.state_dict() for x in e.modules.to_list()]))
    check('shaping', e.reward_shaping_func is shaper, True)
    check('trajectory', e.trajectory_func is trajectory, True)
    other = lambda info, cost: 0
    e = DiscreteMicrogridEnv.from_microgrid(m, flat_spaces=flat, reward_shaping_func=other)
    check('override', e.reward_shaping_func is other, True)
    check('kept', e.trajectory_func is trajectory, True)
    e = DiscreteMicrogridEnv.from_microgrid(m, flat_spaces=flat, reward_shaping_func=None)
    check('no shaping', e.reward_shaping_func is shaper, False)
    check('kept', e.trajectory_func is trajectory, True)
    e = DiscreteMicrogridEnv.from_microgrid(m, flat_spaces=flat, trajectory_func=None)
    check('no trajectory', e.trajectory_func is None, True)
    check('shaping kept', e.reward_shaping_func is shaper, True)
    before = snapshot(m)
    e.step(0)
    check_same('microgrid untouched', before, snapshot(m))


def ob_from_microgrid_bounds():
    """an episode in progress does not become the whole of the environment's data"""
    n = integer('n', 6)
    ld, ls = load('', n, 0)
    b, q, p = battery('', initial_step=0)
    m = Microgrid([ld, b, balancing(0)], add_unbalanced_module=False, trajectory_func=lambda lo, hi: (2, 5))
    m.reset()
    e = DiscreteMicrogridEnv.from_microgrid(m)
    check('bounds', (e.initial_step, e.final_step), (0, n))
    check('episode', (e.current_step, e.modules['load'][0].initial_step, e.modules['load'][0].final_step), (2, 2, 5))
    e = DiscreteMicrogridEnv.from_microgrid(m, trajectory_func=lambda lo, hi: (lo + 1, hi - 1))
    e.reset()
    check('next episode', (e.modules['load'][0].initial_step, e.modules['load'][0].final_step), (1, n - 1))


def ob_from_run_microgrid():
    """built from a microgrid that has been run: states are kept, logs start over"""
    mods, l, _ = simple()
    m = Microgrid(mods, add_unbalanced_module=False)
    m.run({'battery': [0.0]}, normalized=False)
    before = snapshot(m)
    e = ContinuousMicrogridEnv.from_microgrid(m)
    check('states', [x.state_dict() for x in e.modules.to_list()], [x.state_dict() for x in m.modules.to_list()])
    check('step', e.current_step, m.current_step)
    e.step(vector('a', 1, lo=0, hi=1))
    log = e.get_log()
    check('one row', len(log), 1)
    check('label', log.index[0], m.current_step)
    check_same('microgrid untouched', before, snapshot(m))
