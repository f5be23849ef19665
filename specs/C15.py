from common import *
from pymgrid.envs import DiscreteMicrogridEnv, ContinuousMicrogridEnv

CASES = {
    'ob_module_reads': [{'kind': 'battery'}, {'kind': 'genset'}, {'kind': 'genset_fn'}, {'kind': 'grid'}, {'kind': 'load'}, {'kind': 'pv'}, {'kind': 'balancing'}],
    'ob_module_values': [{'kind': 'battery'}, {'kind': 'genset'}, {'kind': 'grid'}, {'kind': 'load'}, {'kind': 'pv'}, {'kind': 'balancing'}],
    'ob_module_calls': [{'kind': 'battery'}, {'kind': 'genset'}, {'kind': 'genset_now'}, {'kind': 'grid'}, {'kind': 'pv'}, {'kind': 'load'}],
    'ob_forecasts': [{'kind': 'load', 'fc': 'oracle'}, {'kind': 'pv', 'fc': 'oracle'}, {'kind': 'grid', 'fc': 'oracle'}, {'kind': 'load', 'fc': 'user'},
                     {'kind': 'load', 'fc': 'noise'}],
    'ob_env_reads': [{'kind': 'discrete', 'flat': True}, {'kind': 'discrete', 'flat': False}, {'kind': 'continuous', 'flat': True},
                     {'kind': 'continuous', 'flat': False}],
}

READS = ('state', 'current_step', 'min_obs', 'max_obs', 'min_act', 'max_act', 'is_source', 'is_sink', 'marginal_cost', 'logger', 'logger_last', 'name')
SOURCE = ('min_production', 'max_production', 'production_marginal_cost')
SINK = ('max_consumption', 'absorption_marginal_cost')
SERIES = ('current_obs', 'time_series', 'forecaster', 'forecast_horizon', 'forecaster_increase_uncertainty', 'forecaster_relative_noise', 'final_step',
          'state_components')
OWN = {'battery': (), 'genset': ('current_status', 'goal_status'), 'genset_fn': ('current_status', 'goal_status'),
       'grid': ('import_price', 'export_price', 'co2_per_kwh', 'grid_status', 'current_status', 'weak_grid'), 'load': ('current_load',), 'pv': ('current_renewable',),
       'balancing': ()}


def clock3():
    n = integer('n', 5)
    t = integer('t', 0)
    assume(t + 4 < n)
    return n, t


def one(kind, n, t, tag=''):
    if kind == 'battery':
        return battery(tag, initial_step=t)[0]
    if kind == 'genset':
        return genset(tag, initial_step=t, start_up_time=2, wind_down_time=1)[0]
    if kind == 'genset_now':
        return genset(tag, initial_step=t, start_up_time=choice('up', 0, 1), wind_down_time=choice('down', 0, 1))[0]
    if kind == 'genset_fn':
        return genset(tag, initial_step=t, cost=lambda x: x * x * num('c', 0))[0]
    if kind == 'grid':
        return grid(tag, n, t)[0]
    if kind == 'load':
        return load(tag, n, t)[0]
    if kind == 'pv':
        return renewable(tag, n, t)[0]
    return balancing(t)


def act(kind):
    return np.array([1.0, 0.0]) if kind.startswith('genset') else 0.0


def names(kind, m):
    out = list(READS) + list(OWN[kind])
    if m.is_source:
        out += list(SOURCE)
    if m.is_sink:
        out += list(SINK)
    if kind in ('grid', 'load', 'pv'):
        out += list(SERIES)
    return out


def stepped(kind):
    n, t = clock3()
    m = one(kind, n, t)
    m.step(act(kind), normalized=False)
    return m


def ob_module_reads(kind):
    """no public attribute changes anything when it is read"""
    m = stepped(kind)
    before = snapshot(m)
    for name in names(kind, m):
        getattr(m, name)
    check_same('attributes', before, snapshot(m))
    m.state_dict()
    m.state_dict(normalized=True)
    check_same('state', before, snapshot(m))
    m.log_dict()
    m.log
    m.log_frame()
    check_same('log', before, snapshot(m))
    s = (m.action_space, m.observation_space)
    m.action_space['normalized'], m.action_space['unnormalized'], m.observation_space['normalized'], m.observation_space['unnormalized']
    check_same('spaces', before, snapshot(m))
    repr(m)
    m == m
    check_same('printing and comparing', before, snapshot(m))


def ob_module_values(kind):
    """asked twice, the answer is the same"""
    m = stepped(kind)
    ns = [x for x in names(kind, m) if x not in ('logger', 'forecaster')]
    first = [snapshot(getattr(m, x)) for x in ns] + [snapshot(m.state_dict()), snapshot(m.state_dict(normalized=True)), snapshot(m.log_dict())]
    second = [snapshot(getattr(m, x)) for x in ns] + [snapshot(m.state_dict()), snapshot(m.state_dict(normalized=True)), snapshot(m.log_dict())]
    for x, a, b in zip(ns + ['state_dict', 'normalised state', 'log'], first, second):
        check_same(x, a, b)


def ob_module_calls(kind):
    """calls that compute something from the arguments leave the module alone"""
    m = stepped(kind)
    before = snapshot(m)
    s = m.to_normalized(m.state, obs=True)
    m.from_normalized(s, obs=True)
    check_same('observations', before, snapshot(m))
    if kind != 'load':
        a = np.array([1.0, 0.5]) if kind.startswith('genset') else np.array([0.5])
        m.to_normalized(a, act=True)
        m.from_normalized(a, act=True)
        check_same('actions', before, snapshot(m))
    m.sample_action()
    check_same('sampling', before, snapshot(m))
    m.sample_action(strict_bound=True)
    check_same('strict sampling', before, snapshot(m))
    if kind.startswith('genset'):
        x = num('x', 0)
        m.get_co2(x)
        m.get_co2_cost(x)
        m.get_cost(x)
        check_same('costs', before, snapshot(m))
        g = choice('goal', 0, 1)
        m.next_max_production(g)
        m.next_min_production(g)
        m.next_status(g)
        check_same('predicted limits', before, snapshot(m))
    if kind == 'grid':
        x = num('x', 0)
        for src in (True, False):
            m.get_cost(x, as_source=src, as_sink=not src)
            m.get_co2_cost(x, as_source=src, as_sink=not src)
            m.get_co2_production(x, as_source=src, as_sink=not src)
        check_same('costs', before, snapshot(m))
    if kind == 'battery':
        x = num('x')
        m.model_transition(x)
        check_same('transition model', before, snapshot(m))


def ob_forecasts(kind, fc):
    n, t = clock3()
    f = 'oracle' if fc == 'oracle' else (lambda val_c, val_c_n, horizon: val_c_n) if fc == 'user' else num('std', 0)
    kw = dict(forecaster=f, forecast_horizon=2)
    if fc == 'user':
        s = vector('s', 4, lo=0)
        m = LoadModule(time_series=s, **kw)
    elif kind == 'load':
        m = load('', n, t, **kw)[0]
    elif kind == 'pv':
        m = renewable('', n, t, **kw)[0]
    else:
        m = grid('', n, t, **kw)[0]
    before = snapshot(m)
    a = snapshot(m.forecast())
    check_same('forecast', before, snapshot(m))
    m.state_dict(normalized=True)
    m.state
    check_same('state', before, snapshot(m))
    if fc != 'noise':
        b = snapshot(m.forecast())
        check_same('same forecast', a, b)


def micro():
    n, t = clock3()
    b = battery(initial_step=t)[0]
    g = genset(initial_step=t, start_up_time=1, wind_down_time=1)[0]
    return [load('', n, t)[0], renewable('', n, t)[0], grid('', n, t)[0], b, g, balancing(t)]


def ob_microgrid_reads():
    m = Microgrid(micro(), add_unbalanced_module=False)
    m.run({'battery': [0.0], 'grid': [0.0], 'genset': [np.array([0, 0])]}, normalized=False)
    before = snapshot(m)
    m.current_step, m.initial_step, m.final_step, m.n_modules, m.fixed, m.flex, m.controllable, m.modules, m.module_list
    len(m)
    m.get_forecast_horizon()
    check_same('attributes', before, snapshot(m))
    a = snapshot((m.state_dict(), m.state_dict(normalized=True)))
    check_same('state', before, snapshot(m))
    check_same('state again', a, snapshot((m.state_dict(), m.state_dict(normalized=True))))
    m.state_series()
    m.state_series(normalized=True)
    check_same('state series', before, snapshot(m))
    m.get_cost_info()
    check_same('costs', before, snapshot(m))
    m.sample_action()
    m.sample_action(strict_bound=True, sample_flex_modules=True)
    check_same('sampling', before, snapshot(m))
    m.get_empty_action()
    m.get_empty_action(sample_flex_modules=True)
    check_same('empty action', before, snapshot(m))
    repr(m)
    check_same('printing', before, snapshot(m))
    m.modules.to_list(), m.modules.to_dict(), m.modules.to_tuples(), m.modules.names(), m.modules.get_attrs('state_dict')
    list(m.modules.iterlist())
    list(m.modules.iterdict())
    check_same('listings', before, snapshot(m))


def ob_microgrid_log():
    m = Microgrid(micro(), add_unbalanced_module=False)
    m.run({'battery': [0.0], 'grid': [0.0], 'genset': [np.array([0, 0])]}, normalized=False)
    before = snapshot(m)
    m.get_log(as_frame=False)
    check_same('log', before, snapshot(m))
    m.log
    m.get_log()
    check_same('log frame', before, snapshot(m))


def ob_microgrid_maps():
    m = Microgrid(micro(), add_unbalanced_module=False)
    before = snapshot(m)
    a = {'battery': [np.array([0.5])], 'grid': [np.array([0.5])], 'genset': [np.array([1.0, 0.5])]}
    keep = snapshot(a)
    m.from_normalized(a, act=True)
    m.to_normalized(a, act=True)
    check_same('actions', before, snapshot(m))
    check_same('argument', keep, snapshot(a))


def ob_env_reads(kind, flat):
    cls = DiscreteMicrogridEnv if kind == 'discrete' else ContinuousMicrogridEnv
    e = cls(micro(), add_unbalanced_module=False, flat_spaces=flat)
    before = snapshot(e)
    e.action_space, e.observation_space, e.flat_spaces, e.observation_keys
    e.state_dict(normalized=True)
    e.action_space.sample()
    e.current_step, e.initial_step, e.final_step
    e.modules.to_list()
    check_same('reads', before, snapshot(e))
    if kind == 'discrete':
        e.get_priority_lists(True)
        e.get_priority_lists(False)
        check_same('listing the actions', before, snapshot(e))
        e.sample_action()
        check_same('sampling an action', before, snapshot(e))
