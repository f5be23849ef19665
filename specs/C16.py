from common import *
from pymgrid.algos import RuleBasedControl
from pymgrid.envs import DiscreteMicrogridEnv, ContinuousMicrogridEnv
from pymgrid.microgrid.trajectory import DeterministicTrajectory, StochasticTrajectory, FixedLengthStochasticTrajectory

CASES = {
    'ob_modules': [{'kind': 'battery'}, {'kind': 'genset'}, {'kind': 'genset_fn'}, {'kind': 'grid'}, {'kind': 'load'}, {'kind': 'pv'}, {'kind': 'balancing'}],
    'ob_forecast': [{'fc': None}, {'fc': 'oracle'}, {'fc': 'user'}],
    'ob_env': [{'kind': 'discrete', 'flat': True}, {'kind': 'discrete', 'flat': False}, {'kind': 'continuous', 'flat': True},
               {'kind': 'continuous', 'flat': False}],
    'ob_sampling': [{'kind': 'battery'}, {'kind': 'genset'}, {'kind': 'grid'}, {'kind': 'load'}, {'kind': 'pv'}],
    'ob_hash_order': [{'kind': 'microgrid'}, {'kind': 'rbc'}, {'kind': 'discrete'}, {'kind': 'continuous'}],
    'ob_trajectories': [{'kind': 'stochastic'}, {'kind': 'fixed'}],
}


def clock3():
    n = integer('n', 5)
    t = integer('t', 0)
    assume(t + 4 < n)
    return n, t


def one(kind, n, t, tag=''):
    if kind == 'battery':
        return battery(tag, initial_step=t)[0]
    if kind == 'genset':
        return genset(tag, initial_step=t, start_up_time=2, wind_down_time=1)[0]
    if kind == 'genset_fn':
        return genset(tag, initial_step=t, cost=lambda x: x * x * num('c', 0))[0]
    if kind == 'grid':
        return grid(tag, n, t)[0]
    if kind == 'load':
        return load(tag, n, t)[0]
    if kind == 'pv':
        return renewable(tag, n, t)[0]
    return balancing(t)


def quiet(label):
    check(label, list(events('rng')), [])


def seeds():
    return [e for e in events('rng') if e.startswith('seed')]


def ob_modules(kind):
    """building, stepping, reading and resetting a module draws nothing"""
    n, t = clock3()
    m = one(kind, n, t)
    quiet('building')
    a = np.array([choice('s', 0, 1), num('a', 0, 1)]) if kind.startswith('genset') else 0.0 if kind == 'load' else num('a', 0, 1)
    m.step(a, normalized=kind not in ('load', 'balancing'))
    quiet('step')
    m.state_dict()
    m.state_dict(normalized=True)
    m.log
    m.log_dict()
    m.marginal_cost
    m.action_space
    m.observation_space
    repr(m)
    quiet('reads')
    m.reset()
    quiet('reset')


def ob_forecast(fc):
    n, t = clock3()
    if fc == 'user':
        m = LoadModule(time_series=vector('s', 4, lo=0), forecaster=lambda val_c, val_c_n, horizon: val_c_n, forecast_horizon=2)
        clear_events('rng')
    else:
        m = load('', n, t, forecaster=fc, forecast_horizon=2)[0]
        quiet('building')
    m.forecast()
    quiet('forecast')
    m.state_dict()
    m.step(0.0, normalized=False)
    quiet('step')


def parts(n, t):
    b = battery(initial_step=t)[0]
    g = genset(initial_step=t, start_up_time=1, wind_down_time=1)[0]
    return [load('', n, t)[0], renewable('', n, t)[0], grid('', n, t)[0], b, g, balancing(t)]


def ob_microgrid():
    n, t = clock3()
    m = Microgrid(parts(n, t), add_unbalanced_module=False)
    quiet('building')
    m.run({'battery': [0.0], 'grid': [0.0], 'genset': [np.array([1, 0])]}, normalized=False)
    m.run({'battery': [0.5], 'grid': [0.5], 'genset': [np.array([1, 0])]}, normalized=True)
    quiet('steps')
    m.state_dict()
    m.state_series()
    m.get_cost_info()
    m.get_empty_action(sample_flex_modules=True)
    m.log
    m.get_log(as_frame=False)
    repr(m)
    quiet('reads')
    m.reset()
    quiet('reset')
    m.set_forecaster('oracle', forecast_horizon=2)
    m.reset()
    quiet('forecaster')


def ob_deterministic_trajectory():
    m = Microgrid([load('', 10, 0)[0], battery()[0]], trajectory_func=DeterministicTrajectory(2, 7))
    m.reset()
    m.reset()
    quiet('reset')
    m = Microgrid([load('', 10, 0)[0], battery()[0]], trajectory_func=lambda lo, hi: (lo + 1, hi))
    m.reset()
    quiet('reset with a function')


class Quiet(Probe):
    module_type = ('quiet', 'controllable')

    def __init__(self, tag):
        super().__init__(tag, True, True, idle=True)


def ob_rbc():
    m = Microgrid([load('', 10, 0)[0], ('a', Quiet('a')), ('b', Quiet('b'))])
    r = RuleBasedControl(m)
    r.get_priority_lists(True)
    quiet('building')
    r.run(max_steps=1)
    quiet('running')
    r.reset()
    quiet('resetting')


def ob_env(kind, flat):
    n, t = clock3()
    cls = DiscreteMicrogridEnv if kind == 'discrete' else ContinuousMicrogridEnv
    q = Quiet('q')
    q.initial_step = t
    q.reset()
    e = cls([load('', n, t)[0], ('q', q), balancing(t)], add_unbalanced_module=False, flat_spaces=flat)
    quiet('building')
    e.reset()
    quiet('reset')
    e.step(0 if kind == 'discrete' else np.array([0.5]) if flat else {'q': [np.array([0.5])]})
    quiet('step')
    e.action_space, e.observation_space
    e.log
    quiet('reads')


def ob_sampling(kind):
    """sampling draws, but does not reseed"""
    n, t = clock3()
    m = one(kind, n, t)
    m.sample_action()
    m.sample_action(strict_bound=True)
    check('no seeding', seeds(), [])


def ob_microgrid_sampling():
    n, t = clock3()
    m = Microgrid(parts(n, t), add_unbalanced_module=False)
    m.sample_action()
    m.sample_action(strict_bound=True, sample_flex_modules=True)
    check('no seeding', seeds(), [])
    check('draws', len(list(events('rng'))) > 0, True)


def ob_trajectories(kind):
    f = StochasticTrajectory() if kind == 'stochastic' else FixedLengthStochasticTrajectory(3)
    m = Microgrid([load('', 10, 0)[0], battery()[0]], trajectory_func=f)
    m.reset()
    check('no seeding', seeds(), [])


def ob_noise():
    m = load('', 10, 0, forecaster=num('std', 0), forecast_horizon=2)[0]
    m.forecast()
    check('no seeding', seeds(), [])
    check('draws', len(list(events('rng'))) > 0, True)


def observed(parts, kind):
    """what a user sees of a microgrid, its environment and its rule-based controller"""
    if kind == 'microgrid':
        m = Microgrid(parts)
        m.run(m.get_empty_action(), normalized=False) if not len(m.controllable) else None
        return ([x.name for x in m.modules.iterlist()], list(m.modules.names()), list(m.state_dict()), list(m.get_empty_action()), list(m.get_cost_info()),
                [list(m.flex.to_dict()), list(m.fixed.to_dict()), list(m.controllable.to_dict())], list(m.log.columns) if len(m.fixed) else [], repr(m), dir(m.modules))
    if kind == 'rbc':
        r = RuleBasedControl(Microgrid(parts))
        return ([x.module for x in r.priority_list], [[x.module for x in l] for l in r.get_priority_lists(False)])
    if kind == 'discrete':
        e = DiscreteMicrogridEnv(parts, flat_spaces=False)
        return ([[x.module for x in l] for l in e.actions_list], list(e.observation_space))
    e = ContinuousMicrogridEnv(parts, flat_spaces=False)
    return (list(e.action_space), list(e.observation_space))


def ob_hash_order(kind):
    """nothing depends on the order in which a process iterates over sets of names or objects"""
    ps = [('d', load('', 10, 0)[0]), ('b', Quiet('b')), ('a', Quiet('a')), ('c', Quiet('c')), ('e', renewable('', 10, 0)[0])]
    for x in ps[1:4]:
        x[1].cost = 1.0
    here = observed(ps, kind)
    there = other_hashing(observed, ps, kind)
    check('as much', len(there), len(here))
    for a, b in zip(there, here):
        check('another process sees the same', a, b)


def ob_convert():
    """converting between the two kinds of microgrid draws nothing from a shared generator"""
    mods = [LoadModule(time_series=vector('l', 4, lo=0)), ('pv', RenewableModule(time_series=vector('p', 4, lo=0))), battery()[0],
            GensetModule(running_min_production=1, running_max_production=9, genset_cost=0.4),
            GridModule(max_import=5, max_export=5, time_series=np.array([[0.1, 0.2, 0.3, 1.0]] * 4))]
    n = Microgrid(mods).to_nonmodular()
    quiet('to a non-modular microgrid')
    n.to_modular()
    quiet('and back')


def ob_save():
    """saving and loading draws nothing"""
    m = Microgrid([LoadModule(time_series=vector('l', 4, lo=0)), battery()[0]], trajectory_func=StochasticTrajectory())
    clear_events('rng')
    Microgrid.load(m.dump())
    quiet('microgrid')


def restricted(ps):
    e = ContinuousMicrogridEnv(ps, flat_spaces=False, observation_keys=['load_current', 'soc', 'current_charge', 'renewable_current'])
    obs = e.reset()
    return (list(e.observation_space), [[v for v in o] for o in obs['battery']], list(e.observation_keys))


def ob_hash_keys():
    """nor does the order of restricted observations"""
    b = BatteryModule(min_capacity=0, max_capacity=10, max_charge=5, max_discharge=5, efficiency=0.5, init_charge=num('q', 0, 10))
    ps = [('d', load('', 10, 0)[0]), b, ('e', renewable('', 10, 0)[0])]
    here = restricted(ps)
    check('another process sees the same', other_hashing(restricted, ps), here)
