from common import *
import yaml

KINDS = ('battery', 'genset', 'grid', 'load', 'pv', 'balancing')
PARAMS = {
    'battery': ('min_capacity', 'max_capacity', 'max_charge', 'max_discharge', 'efficiency', 'battery_cost_cycle', 'battery_transition_model', 'init_charge', 'init_soc',
                'initial_step', 'raise_errors'),
    'genset': ('running_min_production', 'running_max_production', 'genset_cost', 'co2_per_unit', 'cost_per_unit_co2', 'start_up_time', 'wind_down_time',
               'allow_abortion', 'init_start_up', 'initial_step', 'raise_errors', 'provided_energy_name'),
    'grid': ('max_import', 'max_export', 'time_series', 'forecast_horizon', 'forecaster_increase_uncertainty', 'forecaster_relative_noise', 'initial_step', 'final_step',
             'cost_per_unit_co2', 'raise_errors'),
    'load': ('time_series', 'forecast_horizon', 'forecaster_increase_uncertainty', 'forecaster_relative_noise', 'initial_step', 'final_step', 'raise_errors'),
    'pv': ('time_series', 'raise_errors', 'forecast_horizon', 'forecaster_increase_uncertainty', 'forecaster_relative_noise', 'initial_step', 'final_step',
           'provided_energy_name'),
    'balancing': ('raise_errors', 'initial_step', 'loss_load_cost', 'overgeneration_cost'),
}
CASES = {
    'ob_round_trip': [{'kind': 'battery', 'file': False}, {'kind': 'battery', 'file': True}, {'kind': 'genset', 'file': False}, {'kind': 'genset', 'file': True},
                      {'kind': 'grid', 'file': False}, {'kind': 'grid', 'file': True}, {'kind': 'load', 'file': False}, {'kind': 'load', 'file': True},
                      {'kind': 'pv', 'file': False}, {'kind': 'pv', 'file': True}, {'kind': 'balancing', 'file': False}, {'kind': 'balancing', 'file': True}],
    'ob_after_steps': [{'kind': 'battery', 'file': False}, {'kind': 'battery', 'file': True}, {'kind': 'genset', 'file': False}, {'kind': 'genset', 'file': True},
                       {'kind': 'grid', 'file': False}, {'kind': 'grid', 'file': True}, {'kind': 'load', 'file': False}, {'kind': 'load', 'file': True},
                       {'kind': 'pv', 'file': False}, {'kind': 'pv', 'file': True}, {'kind': 'balancing', 'file': False}],
    'ob_continues': [{'kind': 'battery'}, {'kind': 'genset'}, {'kind': 'grid'}, {'kind': 'load'}, {'kind': 'pv'}, {'kind': 'balancing'}],
    'ob_genset_in_progress': [{'goal': 1, 'k': 1}, {'goal': 1, 'k': 2}, {'goal': 0, 'k': 1}],
    'ob_forecast_settings': [{'how': 'none'}, {'how': 'oracle'}, {'how': 'noise'}, {'how': 'increasing'}, {'how': 'relative'}, {'how': 'later'}, {'how': 'dropped'}],
    'ob_missing': [{'kind': 'load', 'param': 'forecast_horizon'}, {'kind': 'load', 'param': 'initial_step'}, {'kind': 'load', 'param': 'raise_errors'}],
    'ob_refused': [{'kind': 'load', 'param': 'time_series'}, {'kind': 'grid', 'param': 'max_import'}, {'kind': 'battery', 'param': 'efficiency'},
                   {'kind': 'genset', 'param': 'running_max_production'}],
    'ob_saving_reads': [{'kind': 'battery', 'file': True}, {'kind': 'genset', 'file': False}, {'kind': 'grid', 'file': True}, {'kind': 'load', 'file': True},
                        {'kind': 'load', 'file': False}, {'kind': 'pv', 'file': False}],
}
N = 4


class File:
    """an open file, as the dumper and the loader see it"""
    def __init__(self, name):
        self.name = name


def make(kind, **kw):
    if kind == 'battery':
        return battery(**kw)[0]
    if kind == 'genset':
        return genset(start_up_time=2, wind_down_time=1, allow_abortion=False, init_start_up=boolean('on'), provided_energy_name='made', **kw)[0]
    if kind == 'grid':
        s = vector('g', N, 4, lo=0)
        assume(((s[:, 3] == 0) | (s[:, 3] == 1)).all())
        return GridModule(max_import=num('mi', 0), max_export=num('me', 0), time_series=s, cost_per_unit_co2=num('cc', 0), final_step=3, **kw)
    if kind == 'load':
        return LoadModule(time_series=vector('s', N, lo=0), final_step=3, **kw)
    if kind == 'pv':
        return RenewableModule(time_series=vector('s', N, lo=0), provided_energy_name='made', **kw)
    return UnbalancedEnergyModule(raise_errors=False, loss_load_cost=num('llc', 0), overgeneration_cost=num('ogc', 0), **kw)


def act(kind, x):
    if kind == 'genset':
        return np.array([choice('request', 0, 1), x])
    return 0.0 if kind == 'load' else x


def again(m, file):
    if file:
        f = File('/scratch/somewhere/module.yaml')
        m.dump(f)
        return type(m).load(f)
    return type(m).load(m.dump())


def same(label, kind, a, b):
    """what a user can see of the two modules"""
    check(label + ': kind', type(b) is type(a), True)
    check(label + ': name', b.name, a.name)
    for p in PARAMS[kind]:
        check(label + ': ' + p, getattr(b, p), getattr(a, p))
    check(label + ': step', b.current_step, a.current_step)
    check(label + ': state', b.state_dict(), a.state_dict())
    check(label + ': state vector', b.state, a.state)
    check(label + ': log', b.log_dict(), a.log_dict())
    check(label + ': log length', len(b.logger), len(a.logger))
    check(label + ': bounds', (b.min_obs, b.max_obs, b.min_act, b.max_act), (a.min_obs, a.max_obs, a.min_act, a.max_act))
    if a.is_source:
        check(label + ': production', (b.min_production, b.max_production), (a.min_production, a.max_production))
    if a.is_sink:
        check(label + ': consumption', b.max_consumption, a.max_consumption)
    if kind in ('grid', 'load', 'pv'):
        check(label + ': forecaster', type(b.forecaster) is type(a.forecaster), True)
        check(label + ': forecast', b.forecast(), a.forecast())


def extra(kind):
    return {'forecaster': 'oracle', 'forecast_horizon': 2} if kind in ('grid', 'load', 'pv') else {}


def ob_round_trip(kind, file):
    m = make(kind, **extra(kind))
    same('fresh', kind, m, again(m, file))


def ob_started_later():
    for kind in ('load', 'pv', 'grid'):
        m = make(kind, initial_step=1)
        same('started later', kind, m, again(m, False))
        m.step(0.0, normalized=False)
        b = again(m, True)
        same('stepped', kind, m, b)
        m.reset()
        b.reset()
        check('step after reset', b.current_step, 1)
        check('log after reset', b.log_dict(), {})


def ob_after_steps(kind, file):
    m = make(kind, **extra(kind))
    m.name = ('some name', 3)
    m.step(act(kind, num('a', 0)), normalized=False)
    same('after a step', kind, m, again(m, file))


def ob_continues(kind):
    """both go on in the same way"""
    m = make(kind, **extra(kind))
    if kind != 'battery':
        m.step(act(kind, num('a', 0)), normalized=False)
    b = again(m, False)
    x = act(kind, num('x', 0))
    r, s = outcome(m.step, x, normalized=False), outcome(b.step, x, normalized=False)
    check('result', s, r)
    same('afterwards', kind, m, b)


def ob_genset_in_progress(goal, k):
    m = GensetModule(running_min_production=num('lo', 0, 1), running_max_production=num('hi', 1), genset_cost=num('c', 0), start_up_time=3, wind_down_time=2,
                     init_start_up=goal == 0)
    for j in range(k):
        m.step(np.array([goal, m.min_production]), normalized=False)
    b = again(m, False)
    check('state', b.state_dict(), m.state_dict())
    for j in range(3):
        r = m.step(np.array([goal, m.min_production]), normalized=False)
        s = b.step(np.array([goal, b.min_production]), normalized=False)
        check('step', s, r)
        check('state', b.state_dict(), m.state_dict())


def ob_forecast_settings(how):
    s = vector('s', N, lo=0)
    std = num('std', 0)
    if how == 'none':
        m = LoadModule(time_series=s, forecaster=None)
    elif how == 'oracle':
        m = LoadModule(time_series=s, forecaster='oracle', forecast_horizon=3)
    elif how == 'noise':
        m = LoadModule(time_series=s, forecaster=std, forecast_horizon=2)
    elif how == 'increasing':
        m = LoadModule(time_series=s, forecaster=std, forecast_horizon=2, forecaster_increase_uncertainty=True)
    elif how == 'relative':
        m = LoadModule(time_series=s, forecaster=std, forecast_horizon=2, forecaster_relative_noise=True)
    elif how == 'later':
        m = LoadModule(time_series=s)
        m.set_forecaster('oracle', forecast_horizon=2)
    else:
        m = LoadModule(time_series=s, forecaster='oracle', forecast_horizon=2)
        m.set_forecaster(None)
    b = again(m, False)
    check('forecaster', type(b.forecaster) is type(m.forecaster), True)
    check('horizon', b.forecast_horizon, m.forecast_horizon)
    check('uncertainty', (b.forecaster_increase_uncertainty, b.forecaster_relative_noise), (m.forecaster_increase_uncertainty, m.forecaster_relative_noise))
    check('state keys', list(b.state_dict().keys()), list(m.state_dict().keys()))
    check('bounds', (b.min_obs, b.max_obs), (m.min_obs, m.max_obs))
    if how in ('noise', 'increasing', 'relative'):
        check('noise', b.forecaster.noise_std, m.forecaster.noise_std)
    else:
        check('forecast', b.forecast(), m.forecast())
        check('state', b.state_dict(), m.state_dict())


def without(m, param):
    """the saved document without one constructor parameter"""
    doc = m.dump()
    for key, node in doc.node.value:
        if key == 'cls_params':
            node.value = [(k, v) for k, v in node.value if k != param]
    return doc


def ob_missing(kind, param):
    m = LoadModule(time_series=vector('s', N, lo=0), initial_step=0, raise_errors=False)
    clear_events('warn')
    b = LoadModule.load(without(m, param))
    check('warned', len(list(events('warn'))) > 0, True)
    check('value', getattr(b, param), {'forecast_horizon': 0, 'initial_step': 0, 'raise_errors': False}[param])
    same('otherwise', kind, m, b)


def ob_refused(kind, param):
    m = make(kind)
    check('refused', raised(type(m).load, without(m, param), exc='KeyError'), True)


def ob_saving_reads(kind, file):
    """saving changes nothing, so a module can be saved as often as wanted"""
    m = make(kind, **extra(kind))
    m.step(act(kind, num('a', 0)), normalized=False)
    before = snapshot(m)
    b = again(m, file)
    check_same('module', before, snapshot(m))
    same('second copy', kind, again(m, file), b)
