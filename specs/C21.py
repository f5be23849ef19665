from common import *
from pymgrid.microgrid.trajectory import DeterministicTrajectory, StochasticTrajectory, FixedLengthStochasticTrajectory
from pymgrid.envs import DiscreteMicrogridEnv, ContinuousMicrogridEnv
from pymgrid.microgrid.reward_shaping import PVCurtailmentShaper, BatteryDischargeShaper

N = 4
CASES = {
    'ob_round_trip': [{'mix': 'small', 'file': False}, {'mix': 'small', 'file': True}, {'mix': 'twins', 'file': False}, {'mix': 'twins', 'file': True},
                      {'mix': 'names', 'file': True}, {'mix': 'all', 'file': False}, {'mix': 'all', 'file': True}],
    'ob_stepped': [{'mix': 'small', 'file': False}, {'mix': 'small', 'file': True}, {'mix': 'twins', 'file': True}, {'mix': 'names', 'file': False},
                   {'mix': 'genset', 'file': True}],
    'ob_shaping': [{'which': 'none', 'file': False}, {'which': 'pv', 'file': False}, {'which': 'battery', 'file': True}],
    'ob_trajectory': [{'which': 'none', 'file': False}, {'which': 'deterministic', 'file': True}, {'which': 'stochastic', 'file': False}, {'which': 'fixed', 'file': True}],
    'ob_trajectory_after_reset': [{'file': False}, {'file': True}],
    'ob_saving_reads': [{'mix': 'twins', 'file': True}, {'mix': 'small', 'file': False}],
    'ob_environment': [{'kind': 'discrete', 'file': True}, {'kind': 'continuous', 'file': False}],
    'ob_balancing': [{'own': True}, {'own': False}],
}


class File:
    """an open file, as the dumper and the loader see it"""
    def __init__(self, name):
        self.name = name


def series_of(tag):
    return vector(tag, N, lo=0)


def modules(mix):
    if mix == 'small':
        return [LoadModule(time_series=series_of('l')), ('pv', RenewableModule(time_series=series_of('p')))]
    if mix == 'twins':
        return [LoadModule(time_series=series_of('l0')), LoadModule(time_series=series_of('l1')),
                RenewableModule(time_series=series_of('p0')), RenewableModule(time_series=series_of('p1')), RenewableModule(time_series=series_of('p2'))]
    if mix == 'names':
        return [('house', LoadModule(time_series=series_of('l0'))), ('factory', LoadModule(time_series=series_of('l1'))),
                ('roof', RenewableModule(time_series=series_of('p0'))), ('house', LoadModule(time_series=series_of('l2'))), ('field', RenewableModule(time_series=series_of('p1')))]
    if mix == 'genset':
        return [('genset', genset()[0]), LoadModule(time_series=series_of('l'))]
    b, q, p = battery()
    g = vector('g', N, 4, lo=0)
    assume(((g[:, 3] == 0) | (g[:, 3] == 1)).all())
    return [('storage', b), ('genset', genset()[0]), GridModule(max_import=num('mi', 0), max_export=num('me', 0), time_series=g),
            LoadModule(time_series=series_of('l')), ('pv', RenewableModule(time_series=series_of('p')))]


def control(m, x):
    out = {}
    for name, mods in m.controllable.iterdict():
        out[name] = [np.array([1, x]) if isinstance(y, GensetModule) else x for y in mods]
    return out


def again(m, file):
    if file:
        f = File('/scratch/somewhere/microgrid.yaml')
        m.dump(f)
        return Microgrid.load(f)
    return Microgrid.load(m.dump())


def same(label, a, b):
    """what a user can see of the two microgrids"""
    check(label + ': kind', type(b) is type(a), True)
    check(label + ': names', [(x.name, type(x).__name__) for x in b.modules.iterlist()], [(x.name, type(x).__name__) for x in a.modules.iterlist()])
    for kind in ('fixed', 'flex', 'controllable', 'sources', 'sinks'):
        check(label + ': ' + kind, [x.name for x in getattr(b, kind).iterlist()], [x.name for x in getattr(a, kind).iterlist()])
    for x, y in zip(a.modules.iterlist(), b.modules.iterlist()):
        check(label + ': steps of modules', (y.initial_step, y.current_step), (x.initial_step, x.current_step))
        check(label + ': state', y.state_dict(), x.state_dict())
        check(label + ': log of modules', y.log_dict(), x.log_dict())
        check(label + ': limits', (y.min_act, y.max_act), (x.min_act, x.max_act))
        check(label + ': errors', y.raise_errors, x.raise_errors)
        if hasattr(x, 'time_series'):
            check(label + ': series', y.time_series, x.time_series)
            check(label + ': end', y.final_step, x.final_step)
        if isinstance(x, UnbalancedEnergyModule):
            check(label + ': balancing costs', (y.loss_load_cost, y.overgeneration_cost), (x.loss_load_cost, x.overgeneration_cost))
    check(label + ': initial step', b.initial_step, a.initial_step)
    check(label + ': final step', b.final_step, a.final_step)
    check(label + ': current step', b.current_step, a.current_step)
    la, lb = a.get_log(as_frame=False), b.get_log(as_frame=False)
    check(label + ': log', lb, la)


def ob_round_trip(mix, file):
    m = Microgrid(modules(mix), loss_load_cost=num('llc', 0), overgeneration_cost=num('ogc', 0))
    same('fresh', m, again(m, file))


def ob_stepped(mix, file):
    """saved after a step; both then take the same further step"""
    m = Microgrid(modules(mix), loss_load_cost=num('llc', 0), overgeneration_cost=num('ogc', 0))
    m.run(control(m, num('x', 0)), normalized=False)
    b = again(m, file)
    same('after a step', m, b)
    y = num('y', 0)
    check('next result', b.run(control(b, y), normalized=False), m.run(control(m, y), normalized=False))
    same('after the next step', m, b)


def ob_reset():
    m = Microgrid(modules('small'))
    m.run(m.get_empty_action(), normalized=False)
    b = again(m, True)
    check('observation', b.reset(), m.reset())
    same('after a reset', m, b)


def ob_second_generation():
    """a reloaded microgrid can be saved again"""
    m = Microgrid(modules('twins'))
    m.run(m.get_empty_action(), normalized=False)
    b = again(again(m, True), False)
    same('second generation', m, b)
    same('third generation', m, again(b, True))


def ob_balancing(own):
    """no second balancing module"""
    if own:
        m = Microgrid(modules('small') + [UnbalancedEnergyModule(raise_errors=False, loss_load_cost=num('llc', 0), overgeneration_cost=num('ogc', 0))], add_unbalanced_module=False)
    else:
        m = Microgrid(modules('small'), add_unbalanced_module=False)
    b = again(m, False)
    check('number of modules', len(list(b.modules.iterlist())), len(list(m.modules.iterlist())))
    check('number of balancing modules', len([x for x in b.modules.iterlist() if isinstance(x, UnbalancedEnergyModule)]), 1 if own else 0)
    same('loaded', m, b)


def ob_shaping(which, file):
    f = {'none': None, 'pv': PVCurtailmentShaper(), 'battery': BatteryDischargeShaper()}[which]
    m = Microgrid(modules('small'), reward_shaping_func=f)
    b = again(m, file)
    check('function', type(b.reward_shaping_func) is type(m.reward_shaping_func), True)
    check('result of a step', b.run(b.get_empty_action(), normalized=False), m.run(m.get_empty_action(), normalized=False))
    same('afterwards', m, b)


def ob_trajectory(which, file):
    f = {'none': None, 'deterministic': DeterministicTrajectory(1, 3), 'stochastic': StochasticTrajectory(), 'fixed': FixedLengthStochasticTrajectory(2)}[which]
    m = Microgrid(modules('small'), trajectory_func=f)
    b = again(m, file)
    check('function', type(b.trajectory_func) is type(m.trajectory_func), True)
    if which == 'deterministic':
        check('bounds', (b.trajectory_func.initial_step, b.trajectory_func.final_step), (1, 3))
    if which == 'fixed':
        check('length', b.trajectory_func.trajectory_length, 2)
    if f is not None:
        check('equal', b.trajectory_func == m.trajectory_func, True)
    same('loaded', m, b)


def ob_trajectory_after_reset(file):
    """a trajectory moved the episode: the modules keep the episode, the microgrid its own bounds"""
    m = Microgrid(modules('twins'), trajectory_func=DeterministicTrajectory(1, 3))
    m.reset()
    b = again(m, file)
    same('after a reset', m, b)
    check('own bounds', (b.initial_step, b.final_step), (0, N))
    m.run(m.get_empty_action(), normalized=False)
    same('after a step', m, again(m, file))
    b.run(b.get_empty_action(), normalized=False)
    check('results', b.run(b.get_empty_action(), normalized=False), m.run(m.get_empty_action(), normalized=False))
    check('observation', b.reset(), m.reset())
    same('after another reset', m, b)


def ob_saving_reads(mix, file):
    m = Microgrid(modules(mix))
    m.run(m.get_empty_action(), normalized=False)
    before = snapshot(m)
    b = again(m, file)
    check_same('microgrid', before, snapshot(m))
    same('second copy', again(m, file), b)


def ob_two_microgrids():
    """two microgrids saved to different places do not get mixed up"""
    m1 = Microgrid(modules('small'))
    m2 = Microgrid([LoadModule(time_series=series_of('L')), ('pv', RenewableModule(time_series=series_of('P')))])
    f1, f2 = File('/scratch/one/microgrid.yaml'), File('/scratch/two/microgrid.yaml')
    m1.dump(f1)
    m2.dump(f2)
    same('first', m1, Microgrid.load(f1))
    same('second', m2, Microgrid.load(f2))


def ob_saved_again():
    """saving over an earlier save leaves nothing of the earlier one"""
    m = Microgrid(modules('twins'), loss_load_cost=num('llc', 0), overgeneration_cost=num('ogc', 0))
    f = File('/scratch/somewhere/microgrid.yaml')
    m.run(m.get_empty_action(), normalized=False)
    m.dump(f)
    m.run(m.get_empty_action(), normalized=False)
    m.dump(f)
    same('second save', m, Microgrid.load(f))
    other = Microgrid([LoadModule(time_series=series_of('L0')), LoadModule(time_series=series_of('L1')), RenewableModule(time_series=series_of('P0'))])
    other.dump(f)
    same('save of another', other, Microgrid.load(f))


def store():
    return BatteryModule(min_capacity=5, max_capacity=100, max_charge=50, max_discharge=40, efficiency=0.9, init_charge=50)


def ob_environment(kind, file):
    """an environment is a microgrid too"""
    cls = {'discrete': DiscreteMicrogridEnv, 'continuous': ContinuousMicrogridEnv}[kind]
    e = cls(modules('small') + [store()], loss_load_cost=num('llc', 0), overgeneration_cost=num('ogc', 0), trajectory_func=DeterministicTrajectory(1, 3))
    e.reset()
    e.run({'battery': [num('x', 0, 9)]}, normalized=False)
    b = again(e, file)
    same('environment', e, b)
    c = cls.load(e.dump())
    same('loaded through its class', e, c)
    check('spaces', (b.observation_space.shape, c.observation_space.shape), (e.observation_space.shape, e.observation_space.shape))
    check('next result', c.run({'battery': [num('y', 0, 9)]}, normalized=False), e.run({'battery': [num('y', 0, 9)]}, normalized=False))
    same('afterwards', e, c)
    m = Microgrid(modules('small') + [store()])
    d = cls.load(m.dump())
    check('a saved microgrid loads as an environment', isinstance(d, cls), True)
    check('its modules', [(x.name, type(x).__name__) for x in d.modules.iterlist()], [(x.name, type(x).__name__) for x in m.modules.iterlist()])
    check('its states', [x.state_dict() for x in d.modules.iterlist()], [x.state_dict() for x in m.modules.iterlist()])


def ob_shaping_and_trajectory():
    m = Microgrid(modules('small'), reward_shaping_func=PVCurtailmentShaper(), trajectory_func=DeterministicTrajectory(1, 3))
    b = again(m, True)
    check('functions', (type(b.reward_shaping_func) is PVCurtailmentShaper, type(b.trajectory_func) is DeterministicTrajectory), (True, True))
    check('observation', b.reset(), m.reset())
    check('result of a step', b.run(b.get_empty_action(), normalized=False), m.run(m.get_empty_action(), normalized=False))
    same('afterwards', m, b)
